"""Path-sensitive interprocedural value-flow analysis of Python source (no code of the repository is executed).

Every function is evaluated over provenance terms. Calls into the analysed tree are inlined, loops and recursions are
summarised as regions (one generic iteration), everything else is opaque. The result is a set of paths: facts under
which the path is taken, the effects on the way, and the outcome.
"""
import ast
import itertools

from . import builtins_model, signatures
from .facts import Facts, INF, Theory, intlike
from .program import Program, canon_ext, dotted_of, flatten_body, is_overload
from .terms import *


class Unsupported(Exception):
  pass


class RecursionFound(Exception):

  def __init__(self, node):
    self.node = node


class Budget(Exception):
  pass


class Closure:
  __slots__ = ("id", "node", "mod", "cls", "env", "qual", "defaults", "kwdefaults", "ctxmgr", "wraps")

  def __init__(self, **k):
    self.ctxmgr = False
    self.wraps = None
    for a, b in k.items():
      setattr(self, a, b)


class Raised:
  __slots__ = ("exc", "site", "msg")

  def __init__(self, exc, site, msg=None):
    self.exc, self.site, self.msg = exc, site, msg  # exc: T naming the class, or opaque


class Region:
  """A loop or a recursion: its generic iteration as a list of body paths."""

  def __init__(self, kind, idx, syms=()):
    self.kind, self.idx, self.syms = kind, idx, syms
    self.paths = []
    self.site = None


class BodyPath:

  def __init__(self, facts, views, exit=None):
    self.facts, self.views, self.exit = facts, views, exit

  def view(self, k):
    return self.views.get(k, ())


# what repository functions that an obligation leaves opaque do: E acts on its arguments, F returns a new object
OPAQUE = {
    "nnx.module._update_module": "E",
    "nnx.contextlib.Context.partition": "E",
    "nnx.contextlib.Context.make_rng": "E",
    "nnx.module.Module.update_state": "E",
    "nnx.module.ModuleDef.merge": "F",
    "nnx.module._build_module": "F",
    "nnx.contextlib.ContextDef.merge": "F",
}
PREDICATES = ("nnx.partitioning.to_predicate", "nnx.contextlib.to_rng_predicate")
RESULTS = {
    "nnx.module.Module.partition": "nnx.module.Pure",
    "nnx.contextlib.Context.partition": "nnx.contextlib.PureContext",
    "nnx.module._get_module_def": "nnx.module.ModuleDef",
    "nnx.module._get_module_state": "nnx.state.State",
    "nnx.module.ModuleDef.merge": "nnx.module.Module",
    "nnx.module._build_module": "nnx.module.Module",
    "nnx.contextlib.ContextDef.merge": "nnx.contextlib.Context",
    "nnx.transforms.scan_init": "nnx.module.Module",
}


def fmt(parts):
  """Concatenation of strings and formatted values."""
  out = []
  for v in parts:
    for x in v.a if v.op == "Fmt" else (v,):
      if isK(x, str, int) and out and isK(out[-1], str):
        out[-1] = K(kval(out[-1]) + str(kval(x)))
      elif isK(x, str, int):
        out.append(K(str(kval(x))))
      else:
        out.append(x)
  out = [x for x in out if not (isK(x, str) and kval(x) == "")]
  if not out:
    return K("")
  if len(out) == 1 and isK(out[0], str):
    return out[0]
  return T("Fmt", *out)


def is_lock(t, p=None):
  if p is not None and t.op == "At" and t.a[1] in lock_attributes(p):
    return True
  return t.op == "Ap" and t.a[0].op == "Ext" and t.a[0].a[0] in ("threading.Lock", "threading.RLock")


def lock_attributes(p):
  """Names of attributes that hold a threading lock."""
  if not hasattr(p, "_lock_attributes"):
    p._lock_attributes = set()
    for m in p.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split(".")[-1] in ("Lock", "RLock"):
          p._lock_attributes |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
  return p._lock_attributes


class Path:

  def __init__(self, facts, events, out, st, flags):
    self.facts, self.events, self.out, self.st, self.flags = facts, events, out, st, flags


class St:
  __slots__ = ("envs", "heap", "over", "facts", "order", "trail", "tries", "flags", "registered")

  def fork(self):
    s = St()
    s.envs = dict(self.envs)
    s.heap = dict(self.heap)
    s.over = dict(self.over)
    s.facts = self.facts.copy()
    s.order = self.order
    s.trail = self.trail
    s.tries = self.tries
    s.flags = self.flags
    s.registered = self.registered
    return s

  def ev(self, *e):
    self.trail = (self.trail, e)

  def flag(self, f):
    if f not in self.flags:
      self.flags = self.flags + (f,)


def events_of(trail, stop=None):
  out = []
  while trail is not None and trail is not stop:
    trail, e = trail
    out.append(e)
  out.reverse()
  return out


class Obj:
  """Immutable heap record."""

  __slots__ = ("kind", "cls", "fields", "log")

  def __init__(self, kind, cls=None, fields=None, log=()):
    self.kind, self.cls, self.fields, self.log = kind, cls, fields or {}, log

  def with_log(self, log):
    return Obj(self.kind, self.cls, self.fields, log)

  def with_field(self, k, v):
    return Obj(self.kind, self.cls, {**self.fields, k: v}, self.log)


class Frame:
  __slots__ = ("env", "mod", "cls", "qual", "yields", "stack", "on_yield", "depth", "node", "selfterm")

  def __init__(self, **k):
    self.yields = None
    self.on_yield = None
    self.selfterm = None
    for a, b in k.items():
      setattr(self, a, b)


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

# Methods of the library's public objects: calls on values of unknown class stay calls (never inlined).
API = {
    "partition": "R", "merge": "F", "get_state": "R", "get_module_def": "R", "update_state": "E", "pop_state": "E",
    "clone": "F", "filter": "R", "apply": "E", "call": "E", "init": "E", "sow": "E", "for_each": "E",
    "mutable_state_dict": "R", "make_rng": "E", "has_rng": "R", "get_flag": "R", "has_flag": "R", "copy": "F",
    "is_valid": "R", "replace": "R", "is_equivalent": "R", "apply_gradients": "R", "to_tuple": "R", "from_tuple": "F",
    "items": "R", "keys": "R", "values": "R", "get": "R", "update": "E", "pop": "E", "append": "E", "add": "E",
    "insert": "E", "extend": "E", "remove": "E", "discard": "E", "setdefault": "E", "clear": "E", "index": "R",
    "count": "R", "join": "P", "split": "P", "startswith": "P", "endswith": "P", "format": "P", "encode": "P",
    "lower": "P", "strip": "P", "digest": "R", "reshape": "P", "astype": "P", "flatten_up_to": "P", "unflatten": "P",
    "intersection": "R", "union": "R", "issubset": "R", "isdisjoint": "R", "difference": "R", "new": "F",
}


PARAMETER_KINDS = {"POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD"}
LIST_RESULTS = {"jax.tree_util.tree_leaves", "jax.tree_util.tree_leaves_with_path"}


class Interp:

  Raised = Raised
  API = API
  events_of = staticmethod(events_of)

  @staticmethod
  def view_entries(bp, view):
    return view_entries(bp, view)

  def __init__(self, program, opaque=(), max_paths=4000, theory=None):
    self.p = program
    self.opaque = set(opaque)
    self.th = theory or Theory(program)
    self.clos = []
    self.fcache = {}
    self.ids = itertools.count(1)
    self.carriers = {}  # what a value carried from one iteration to the next is updated with
    self.recursive = set()
    self.recstack = []
    self.types = {}
    self.unions = {}  # symbols that are instances of a class of the tree or of a builtin one
    self.th.types = self.types
    self.item_types = {}
    self.max_paths = max_paths
    self.steps = 0
    self.seen_functions = set()
    self.seen_calls = set()
    self.active_bases = []
    self.typed_methods = {}
    self.hooks = {}

  # ------------------------------------------------------------ basic state
  def new_state(self):
    s = St()
    s.envs, s.heap, s.over = {}, {}, {}
    s.facts = Facts(self.th)
    s.order, s.trail, s.tries, s.flags, s.registered = (), None, 0, (), ()
    return s

  def alloc(self, st, kind, cls=None, fields=None, log=()):
    oid = next(self.ids)
    st.heap[oid] = Obj(kind, cls, fields, tuple(log))
    return T("Ref", oid)

  def obj(self, st, ref):
    return st.heap[ref.a[0]]

  def put(self, st, ref, o):
    st.heap[ref.a[0]] = o

  def site(self, node, fr):
    return (fr.mod.rel, fr.qual, getattr(node, "lineno", 0))

  # --------------------------------------------------------------- closures
  def closure(self, node, mod, cls, env, qual):
    c = Closure(id=len(self.clos), node=node, mod=mod, cls=cls, env=env, qual=qual, defaults=None, kwdefaults=None)
    self.clos.append(c)
    return c

  def fn_term(self, c):
    return T("Fn", c.id, c.qual)

  def global_fn(self, modname, name):
    k = ("g", modname, name)
    if k not in self.fcache:
      m = self.p.modules[modname]
      node = m.ns[name][1]
      c = self.closure(node, m, None, None, f"{modname}.{name}")
      self.mark_ctxmgr(c)
      self.fcache[k] = self.fn_term(c)
    return self.fcache[k]

  def method_fn(self, cls, name):
    hit = self.p.find_method(cls, name)
    if hit is None:
      return None
    c, node = hit
    k = ("m", c.qual, name)
    if k not in self.fcache:
      cl = self.closure(node, c.mod, c.qual, None, f"{c.qual}.{name}")
      self.mark_ctxmgr(cl)
      self.fcache[k] = self.fn_term(cl)
    return self.fcache[k]

  def mark_ctxmgr(self, c):
    for d in getattr(c.node, "decorator_list", []):
      n = self.p.static_expr(c.mod, d)
      if n is not None and n.op == "Ext" and n.a[0] == "contextlib.contextmanager":
        c.ctxmgr = True

  def deco_kind(self, node):
    for d in node.decorator_list:
      n = (dotted_of(d if not isinstance(d, ast.Call) else d.func) or "").split(".")[-1]
      if n in ("property", "cached_property", "classmethod", "staticmethod"):
        return n
    return "classmethod" if getattr(node, "name", "") in ("__init_subclass__", "__class_getitem__") else None

  # ---------------------------------------------------------------- truth
  def atom(self, st, a, node=None):
    """fork on an atom -> (state, bool)"""
    q = st.facts.query(a)
    if q is None and a.op == "A.in" and a.a[0] is K("value") and a.a[1].op == "Vars":
      x = a.a[1].a[0]
      same = [y.a[0] for at, v in st.facts.items() if v is True and at.op in ("A.is", "A.eq") and T("Type", x) in at.a for y in at.a if isinstance(y, T) and y.op == "Type"]
      cs = {self.type_of(st, y) for y in [x, *same]} | {at.a[1].a[0] for at, v in st.facts.items() if v is True and at.op == "A.isinst" and at.a[0] is x and at.a[1].op == "Cls"}
      if any(c in self.p.classes and "nnx.containers.Container" in self.p.mro(c) for c in cs):
        q = True  # every container has a value: its constructor sets it
    if q is not None:
      yield st, q
      return
    for val in (True, False):
      s = st.fork()
      if s.facts.assume(a, val):
        s.order = s.order + ((a, val),)
        yield s, val

  def cmp_int(self, st, t, lo, hi):
    """fork on t in [lo,hi] for an int-like term"""
    t, off = self.lin(t)
    lo, hi = lo - off, hi - off
    a, b = st.facts.rng(t)
    if a >= lo and b <= hi:
      yield st, True
      return
    if b < lo or a > hi:
      yield st, False
      return
    s = st.fork()
    if s.facts.narrow(t, lo, hi):
      yield s, True
    for l, h in ((-INF, lo - 1), (hi + 1, INF)):
      if l <= h and h > -INF and l < INF:
        s = st.fork()
        if s.facts.narrow(t, l, h):
          yield s, False

  def lin(self, t):
    """t = base + offset"""
    if t.op == "Poly":
      p = poly(t)
      c = p.pop((), 0)
      b = unpoly(p)
      return b, c
    return t, 0

  def is_container_truth(self, st, t):
    return t.op in ("Tup",)

  def truth(self, st, v, fr=None):
    if v.op == "K":
      yield st, bool(kval(v))
      return
    if v.op in ("Cls", "Fn", "Ext", "Bound", "Mod", "Lam", "Hof", "Partial", "BM", "GFn"):
      yield st, True
      return
    if v.op == "Not":
      for s, b in self.truth(st, v.a[0]):
        yield s, not b
      return
    if v.op == "Ref":
      o = self.obj(st, v)
      if o.kind == "inst":
        if o.cls is not None and self.p.find_method(o.cls, "__bool__") is None and self.p.find_method(o.cls, "__len__") is None:
          yield st, True
          return
        m = self.method_fn(o.cls, "__bool__") if o.cls else None
        if m is not None:
          for s, r in self.call(st, T("Bound", m, v), [], [], fr, None):
            if isinstance(r, Raised):
              yield s, True
            else:
              yield from self.truth(s, r, fr)
          return
        yield from self.atom(st, T("A.truth", self.reify(st, v)))
        return
      yield from self.len_truth(st, v, fr)
      return
    if v.op in ("Tup", "Seq", "Slice", "KeysOf", "ItemsOf", "ValuesOf", "Zip", "Sorted", "Vars") or v.op == "RS" and v.a[0].op in ("Slice", "Seq", "Tup") or v.op == "Ap" and v.a[0].op == "Ext" and v.a[0].a[0] in LIST_RESULTS or v.op in ("P", "At") and self.is_mapping(st, v):
      yield from self.len_truth(st, v, fr)
      return
    if v.op == "At" and v.a[0].op == "Glob":
      pass
    if v.op == "Glob":
      c = self.glob_class(v)
      if c is not None:
        m = self.method_fn(c, "__bool__")
        if m is not None:
          for s, r in self.call(st, T("Bound", m, v), [], [], fr, None):
            if isinstance(r, Raised):
              yield s, True
            else:
              yield from self.truth(s, r, fr)
          return
        if self.p.find_method(c, "__len__") is None:
          yield st, True
          return
      elif self.glob_plain_object(v):
        yield st, True
        return
    if v.op in ("New", "Inst") and v.a[0].op == "Cls":
      c = v.a[0].a[0]
      if self.p.find_method(c, "__bool__") is None and self.p.find_method(c, "__len__") is None and not (set(self.p.mro(c)) & {"tuple", "dict", "list", "Mapping"}):
        yield st, True
        return
    if intlike(v):
      for s, b in self.cmp_int(st, v, 0, 0):
        yield s, not b
      return
    c = self.type_of(st, v)
    if c is not None and c in self.p.classes:
      mro = self.p.mro(c)
      if self.p.find_method(c, "__bool__") is None and self.p.find_method(c, "__len__") is None and not (set(mro) & {"tuple", "dict", "list", "Mapping", "str"}):
        # instances are always true: only None is false
        for s, b in self.atom(st, T("A.is", v, NONE)):
          yield s, not b
        return
      if self.types.get(v) is not None and self.p.find_method(c, "__bool__") is None and {"Mapping", "MutableMapping"} & set(mro):
        for s, b in self.cmp_int(st, T("Len", v), 0, 0):
          yield s, not b
        return
    yield from self.atom(st, T("A.truth", v))

  def glob_class(self, g):
    """Class of a module level object built by calling a class of the tree."""
    mod, _, name = g.a[0].rpartition(".")
    m = self.p.modules.get(mod)
    b = m.ns.get(name) if m else None
    if b and b[0] == "assign" and isinstance(b[1], ast.Call):
      t = self.p.static_expr(m, b[1].func)
      if t is not None and t.op == "Cls":
        return t.a[0]
    return None

  def glob_plain_object(self, g):
    mod, _, name = g.a[0].rpartition(".")
    m = self.p.modules.get(mod)
    b = m.ns.get(name) if m else None
    return bool(b and b[0] == "assign" and isinstance(b[1], ast.Call) and dotted_of(b[1].func) == "object")

  def only_itself(self, g):
    """Object at module level that equals nothing but itself."""
    if self.glob_plain_object(g):
      return True
    c = self.glob_class(g)
    return c in self.p.classes and self.method_fn(c, "__eq__") is None and not self.p.is_dataclass(self.p.classes[c]) and all(x in self.p.classes or x in ("object", "builtins.object") for x in self.p.mro(c))

  def type_of(self, st, v):
    c = self.types.get(v)
    if c is not None:
      return c
    if v.op == "Glob":
      return self.glob_class(v)
    if v.op in ("New", "Inst") and v.a[0].op == "Cls":
      return v.a[0].a[0]
    if v.op == "It" and v.a[0] in self.item_types:
      return self.item_types[v.a[0]]
    if v.op == "It" and v.a[0].op == "At":
      c = self.type_of(st, v.a[0].a[0])
      t = self.p.field_types(c).get(v.a[0].a[1]) if c in self.p.classes else None
      if t is not None and t[1] is not None:
        return t[1]
    for at, b in st.facts.items():
      if at.op == "A.isinst" and b is True and at.a[0] is v and at.a[1].op == "Cls":
        return at.a[1].a[0]
    return None

  def len_truth(self, st, v, fr):
    for s, n in self.length(st, v, fr):
      if n.op == "K":
        yield s, kval(n) != 0
      else:
        for s2, b in self.cmp_int(s, n, 0, 0):
          yield s2, not b

  # ------------------------------------------------------------- sequences
  def entries(self, st, v):
    """Entries of an iterable value: plain terms, X(splice), LE(region); None when opaque"""
    if v.op == "Tup":
      return list(v.a)
    if v.op == "Seq":
      return [x.a[0] if x.op == "put" else x for x in v.a[1:]] if v.a[0] != "dict" else self.keyed(v.a[1:], 0)
    if v.op == "K" and isinstance(kval(v), str):
      return [K(c) for c in kval(v)]
    if v.op == "K" and isinstance(kval(v), tuple):
      return [K(c) for c in kval(v)]
    if v.op == "Ref":
      o = self.obj(st, v)
      if o.kind == "inst" and "$tuple" in o.fields:
        return self.entries(st, o.fields["$tuple"])
      if o.kind in ("list", "iter", "set"):
        out = []
        for e in o.log:
          if e.op in ("set!", "del!", "pop!", "ins!", "carried") or e.op == "LE" and rewrites(e):
            return None
          out.append(e)
        return out
      if o.kind == "dict":
        return self.keyed(o.log, 0)
      return None
    if v.op in ("KeysOf", "ItemsOf", "ValuesOf"):
      d = v.a[0]
      ent = None
      u = self.underlying(st, d)
      if u is not None:
        d = u
      if d.op == "Ref" and self.obj(st, d).kind == "dict":
        ent = self.obj(st, d).log
      elif d.op == "Seq" and d.a[0] == "dict":
        ent = d.a[1:]
      if ent is not None:
        return self.keyed(ent, {"KeysOf": 0, "ValuesOf": 1, "ItemsOf": 2}[v.op])
      return [X(v)]
    if v.op == "Vars" or v.op in ("P", "At", "It", "Ap", "RS") and self.is_mapping(st, v):
      c = self.type_of(st, v)
      if c not in self.p.classes or self.abstract_mapping(c):
        return [X(T("KeysOf", v))]
    return [X(v)]

  def keyed(self, log, which):
    """keys / values / items view of a dict log"""
    out = []
    for e in log:
      if e.op == "put":
        out.append(e.a[0] if which == 0 else e.a[1] if which == 1 else Tup(e.a))
      elif e.op == "X":
        d = e.a[0]
        out.append(X((d if d.op not in ("Sorted", "ItemsOf", "Zip", "Enum") else T("KeysOf", d)) if which == 0 else T("ValuesOf", d) if which == 1 else T("ItemsOf", d)))
      elif e.op == "LE" and not rewrites(e):
        out.append(T("LE", e.a[0], (e.a[1], which)))
      else:
        return None
    return out

  def length(self, st, v, fr):
    if v.op == "K" and isinstance(kval(v), (str, tuple, bytes)):
      yield st, K(len(kval(v)))
      return
    if v.op == "Ref" and self.obj(st, v).kind == "inst":
      o = self.obj(st, v)
      m = self.method_fn(o.cls, "__len__") if o.cls else None
      if m is not None:
        yield from self.call(st, T("Bound", m, v), [], [], fr, None)
        return
      if "$tuple" in o.fields:
        yield from self.length(st, o.fields["$tuple"], fr)
        return
      u = self.underlying(st, v, fr)
      if u is not None:
        yield from self.length(st, u, fr)
        return
      yield st, T("Len", self.reify(st, v))
      return
    if v.op in ("KeysOf", "ValuesOf", "ItemsOf", "Sorted", "Rev", "Enum"):
      yield from self.length(st, v.a[0], fr)
      return
    e = self.entries(st, v)
    if e is None:
      yield st, T("Len", self.reify(st, v))
      return
    if v.op == "Ref" and self.obj(st, v).kind in ("set", "dict") and any(x.op in ("X", "LE") for x in e):
      yield st, T("Len", self.reify(st, v))
      return
    total = K(0)
    for x in e:
      if x.op == "X":
        total = add(total, self.len_atom(x.a[0]))
      elif x.op == "LE":
        total = add(total, T("Len", T("Seq", "list", self.reify(st, x))))
      else:
        total = add(total, K(1))
    c = self.type_of(st, v)
    if c and e == [X(v)] and v.op != "Tup" and not self.abstract_mapping(c):
      m = self.method_fn(c, "__len__")
      if m is not None and c not in self.opaque:
        yield from self.call(st, T("Bound", m, v), [], [], fr, None)
        return
    yield st, total

  def len_atom(self, x):
    if x.op == "Slice" and isK(x.a[2]) and kval(x.a[2]) is None and isK(x.a[1], int) and kval(x.a[1]) >= 0:
      return add(self.len_atom(x.a[0]), K(-kval(x.a[1])))
    if x.op in ("KeysOf", "ValuesOf", "ItemsOf", "Sorted", "Rev", "Enum"):
      return self.len_atom(x.a[0])
    if x.op == "At" and x.a[1] == "shape":
      return T("At", x.a[0], "ndim")
    return T("Len", x)

  # ------------------------------------------------------------------ reify
  def reify(self, st, t, seen=()):
    """Replaces heap references by their contents and closures by summaries."""
    if not isinstance(t, T):
      if isinstance(t, tuple):
        return tuple(self.reify(st, x, seen) for x in t)
      return t
    o = t.op
    if o in ("K", "P", "Ext", "Cls", "Idx", "RS", "Glob", "Mod", "Lam", "Carry", "Region", "Box"):
      return t
    if o == "Ref":
      if t in seen:
        return T("Cycle", len(seen) - seen.index(t))
      ob = self.obj(st, t)
      sn = seen + (t,)
      if ob.kind == "inst":
        fields = ob.fields
        names = fields.get("$open")
        if names is not None and names.op == "Ref" and all(e.op == "put" and isK(e.a[0], str) for e in self.obj(st, names).log):
          fields = {**{k: v for k, v in fields.items() if k != "$open"}, **{kval(e.a[0]): e.a[1] for e in self.obj(st, names).log}}
        f = tuple(sorted((k, self.reify(st, v, sn)) for k, v in fields.items()))
        return T("Inst", T("Cls", ob.cls), f)
      ent = tuple(self.reify(st, e, sn) for e in ob.log)
      kind = ob.kind
      if kind == "set":
        ent = tuple(sorted(set(ent), key=show))
      if kind == "list" and len(ent) == 1 and ent[0].op == "X" and ent[0].a[0].op == "Seq" and ent[0].a[0].a[0] == "list":
        return ent[0].a[0]
      return T("Seq", kind, *ent)
    if o == "Fn":
      c = self.clos[t.a[0]]
      if c.env is None and self.is_opaque(c.qual):
        return T("Ext", "repo:" + c.qual)
      return T("Lam", Box(LamObj(self, t, st)), c.qual.split(".")[-1])
    if o == "GFn":
      return self.reify(st, self.global_fn(*t.a), seen)
    if o == "Bound":
      c = self.clos[t.a[0].a[0]]
      if self.is_opaque(c.qual):
        return T("At", self.reify(st, t.a[1], seen), c.qual.split(".")[-1])
      return T("Lam", Box(LamObj(self, t, st)), c.qual.split(".")[-1])
    if o == "Partial":
      return T("Lam", Box(LamObj(self, t, st)), "partial")
    if o == "Hof":
      return T("Ap", Ext(t.a[0]), self.reify(st, t.a[1], seen), self.reify(st, t.a[2], seen), 0)
    if o == "LE":
      return t
    if o == "Tup":
      return Tup(self.reify(st, x, seen) for x in t.a)
    if not t.a:
      return t
    na = tuple(self.reify(st, x, seen) for x in t.a)
    if na == t.a:
      return t
    return T(o, *na)

  def callable_object(self, st, x):
    ob = st.heap.get(x.a[0])
    return ob is not None and ob.cls in self.p.classes and self.method_fn(ob.cls, "__call__") is not None

  def is_opaque(self, qual):
    return qual in self.opaque

  def is_protocol(self, q):
    return any(x in ("typing.Protocol", "Protocol", "typing_extensions.Protocol") for x in self.p.mro(q))

  def raw_opaque(self, q):
    return False

  # ---------------------------------------------------------------- names
  def lookup(self, st, name, fr):
    e = fr.env
    while e is not None:
      env = st.envs[e]
      if name in env and not name.startswith("$"):
        return env[name]
      e = env.get("$parent")
    return self.global_name(st, fr.mod, name)

  def global_name(self, st, mod, name):
    k = (T("Mod", mod.name), name)
    if k in st.over:
      return st.over[k]
    t = self.p.resolve(mod, name)
    if t is not None:
      return self.norm_global(t)
    if name in BUILTINS:
      return Ext(canon_ext(name)) if name not in ("None", "True", "False", "Ellipsis") else {"None": NONE, "True": TRUE, "False": FALSE, "Ellipsis": ELL}[name]
    return T("Unbound", name)

  def norm_global(self, t):
    if t.op == "GFn":
      return self.global_fn(*t.a)
    return t

  def bind_name(self, st, name, v, fr):
    env = st.envs[fr.env]
    decl = env.get("$decl", {})
    if name in decl:
      if decl[name] == "global":
        m = T("Mod", fr.mod.name)
        st.over[(m, name)] = v
        st.ev("set", m, name, self.reify(st, v), (fr.mod.rel, fr.qual, 0))
        return
      e = env.get("$parent")
      while e is not None:
        if name in st.envs[e]:
          st.envs[e] = {**st.envs[e], name: v}
          return
        e = st.envs[e].get("$parent")
    st.envs[fr.env] = {**env, name: v}

  # ---------------------------------------------------------- expressions
  def ev(self, n, st, fr):
    self.steps += 1
    if self.steps > 3_000_000:
      raise Budget("too many steps")
    m = getattr(self, "ev_" + type(n).__name__, None)
    if m is None:
      st.flag("unmodelled:" + type(n).__name__)
      yield st, T("?" + type(n).__name__, K(ast.dump(n)[:200]))
      return
    yield from m(n, st, fr)

  def evs(self, nodes, st, fr):
    """Sequence of expressions (Starred allowed) -> (st, [terms]) or (st, Raised)"""
    if not nodes:
      yield st, []
      return
    h, rest = nodes[0], nodes[1:]
    star = isinstance(h, ast.Starred)
    for s, v in self.ev(h.value if star else h, st, fr):
      if isinstance(v, Raised):
        yield s, v
        continue
      for s1, vs in (self.splice(s, v, fr) if star else [(s, [v])]):
        if isinstance(vs, Raised):
          yield s1, vs
          continue
        for s2, r in self.evs(rest, s1, fr):
          if isinstance(r, Raised):
            yield s2, r
          else:
            yield s2, vs + r

  def splice(self, st, v, fr):
    for s, v in self.to_iter(st, v, fr):
      if isinstance(v, Raised):
        yield s, v
        continue
      e = self.entries(s, v)
      if e is None:
        yield s, [X(self.reify(s, v))]
      else:
        if v.op == "Ref" and self.obj(s, v).kind == "iter":
          s = s.fork()
          self.drain(s, v)
        yield s, e

  def to_iter(self, st, v, fr):
    """Value whose entries() describe iterating v (calls __iter__ of known instances)."""
    if v.op == "Ref" and self.obj(st, v).kind == "inst":
      o = self.obj(st, v)
      m = self.method_fn(o.cls, "__iter__") if o.cls else None
      if m is not None:
        yield from self.call(st, T("Bound", m, v), [], [], fr, None)
        return
    c = self.types.get(v)
    if c is not None and c in self.p.classes and not self.abstract_mapping(c):
      m = self.method_fn(c, "__iter__")
      if m is not None and not self.is_opaque(self.clos[m.a[0]].qual):
        yield from self.call(st, T("Bound", m, v), [], [], fr, None)
        return
    yield st, v

  def ev_Constant(self, n, st, fr):
    yield st, K(n.value)

  def ev_Name(self, n, st, fr):
    yield st, self.lookup(st, n.id, fr)

  def ev_Attribute(self, n, st, fr):
    for s, o in self.ev(n.value, st, fr):
      if isinstance(o, Raised):
        yield s, o
      else:
        yield from self.getattr(s, o, n.attr, fr, n)

  def ev_Subscript(self, n, st, fr):
    for s, o in self.ev(n.value, st, fr):
      if isinstance(o, Raised):
        yield s, o
        continue
      if o.op == "Cls" or (o.op == "Ext" and not o.a[0].startswith("np.")):
        yield s, o
        continue
      for s2, k in self.ev(n.slice, s, fr):
        if isinstance(k, Raised):
          yield s2, k
        else:
          yield from self.getitem(s2, o, k, fr, n)

  def ev_Slice(self, n, st, fr):
    parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
    for s, v in self.evs(parts, st, fr):
      yield s, v if isinstance(v, Raised) else T("SliceK", *v)

  def ev_Starred(self, n, st, fr):
    yield from self.ev(n.value, st, fr)

  def ev_Tuple(self, n, st, fr):
    for s, v in self.evs(n.elts, st, fr):
      yield s, v if isinstance(v, Raised) else Tup(v)

  def ev_List(self, n, st, fr):
    for s, v in self.evs(n.elts, st, fr):
      yield s, v if isinstance(v, Raised) else self.alloc(s, "list", log=v)

  def ev_Set(self, n, st, fr):
    for s, v in self.evs(n.elts, st, fr):
      yield s, v if isinstance(v, Raised) else self.alloc(s, "set", log=v)

  def ev_Dict(self, n, st, fr):
    nodes = []
    for k, v in zip(n.keys, n.values):
      if k is not None:
        nodes.append(k)
      nodes.append(v)
    for s, vs in self.evs(nodes, st, fr):
      if isinstance(vs, Raised):
        yield s, vs
        continue
      ref = self.alloc(s, "dict")
      i = 0
      for k in n.keys:
        if k is None:
          self.dict_update(s, ref, vs[i])
          i += 1
        else:
          self.dict_put(s, ref, vs[i], vs[i + 1])
          i += 2
      yield s, ref

  def ev_JoinedStr(self, n, st, fr):
    nodes = [x.value if isinstance(x, ast.FormattedValue) else x for x in n.values]
    for s, vs in self.evs(nodes, st, fr):
      if isinstance(vs, Raised):
        yield s, vs
        continue
      vs = [self.reify_light(s, v) for v in vs]
      for i, x in enumerate(n.values):
        if isinstance(x, ast.FormattedValue):
          if x.conversion == 114 and not isK(vs[i]):
            vs[i] = T("Ap", Ext("repr"), (vs[i],), (), 0)
          if x.format_spec is not None:
            vs[i] = T("Ap", Ext("format"), (vs[i], K(ast.unparse(x.format_spec))), (), 0)
      yield s, fmt(vs)

  def reify_light(self, st, v):
    return v if v.op in ("K", "P") else self.reify(st, v)

  def ev_NamedExpr(self, n, st, fr):
    for s, v in self.ev(n.value, st, fr):
      if not isinstance(v, Raised):
        self.bind_name(s, n.target.id, v, fr)
      yield s, v

  def ev_IfExp(self, n, st, fr):
    for s, c in self.ev(n.test, st, fr):
      if isinstance(c, Raised):
        yield s, c
        continue
      for s2, b in self.truth(s, c, fr):
        yield from self.ev(n.body if b else n.orelse, s2, fr)

  def ev_BoolOp(self, n, st, fr):
    is_and = isinstance(n.op, ast.And)

    def go(i, st):
      for s, v in self.ev(n.values[i], st, fr):
        if isinstance(v, Raised) or i == len(n.values) - 1:
          yield s, v
          continue
        for s2, b in self.truth(s, v, fr):
          if b == is_and:
            yield from go(i + 1, s2)
          else:
            yield s2, v

    yield from go(0, st)

  def ev_UnaryOp(self, n, st, fr):
    for s, v in self.ev(n.operand, st, fr):
      if isinstance(v, Raised):
        yield s, v
      elif isinstance(n.op, ast.Not):
        for s2, b in self.truth(s, v, fr):
          yield s2, K(not b)
      elif isinstance(n.op, ast.USub):
        if isK(v, int, float):
          yield s, K(-kval(v))
        else:
          yield s, neg(self.reify(s, v))
      elif isinstance(n.op, ast.UAdd):
        yield s, v
      else:
        yield s, T("Op", "~", self.reify(s, v))

  OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
         ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

  def ev_BinOp(self, n, st, fr):
    for s, vs in self.evs([n.left, n.right], st, fr):
      if isinstance(vs, Raised):
        yield s, vs
      else:
        yield from self.binop(s, self.OPS[type(n.op)], vs[0], vs[1], fr, n)

  def repeated(self, st, e, n):
    """Entries of a list repeated n times"""
    if intlike(n) and st.facts.bounds(n)[1] <= 0:
      return []
    return [X(T("Op", "*", T("Seq", "list", *[self.reify(st, x) for x in e]), n))]

  def filled(self, st, s, idx):
    """A loop that appends one value until the list is long enough"""
    for oid, o in s.heap.items():
      if oid not in st.heap or o is st.heap[oid] or o.kind == "inst":
        continue
      old = st.heap[oid].log
      if o.kind != "list" or o.log[:-1] != old or o.log[-1].op != "LE":
        return None
      region, view = o.log[-1].a[0].v, o.log[-1].a[1]
      if region.idx is not idx or view != oid:
        return None
      stop = [bp for bp in region.paths if bp.exit is not None]
      cont = [bp for bp in region.paths if bp.exit is None]
      if len(stop) != 1 or len(cont) != 1 or stop[0].exit[0] != "stop" or len(cont[0].facts) != 1:
        return None
      if any(v for k, v in cont[0].views.items() if k != oid) or any(v for k, v in stop[0].views.items()):
        return None
      (a, v), es = cont[0].facts[0], cont[0].views.get(oid, ())
      if a.op != "A.rng" or v[1] != INF or len(es) != 1 or es[0].op in ("X", "LE", "ins!", "set!", "del!", "pop!", "carried"):
        return None
      t = a.a[0]
      own = lambda x: isinstance(x, T) and x.op in ("carried", "Carry") and x.a[0] is idx
      if t.op != "Poly" or any(own(x) for x in walk(es[0])):
        return None
      lens = [(m, k) for m, k in t.a[0] if any(own(x) for x in walk(m))]
      if len(lens) != 1 or lens[0][1] != -1 or len(lens[0][0]) != 1:
        return None
      l = lens[0][0][0]
      if l.op != "Len" or l.a[0].op != "Seq" or not own(l.a[0].a[-1]) or any(own(x) for x in walk(l.a[0].a[:-1])):
        return None
      r = T("Seq", "list", *l.a[0].a[1:-1])
      if r is not self.reify(st, T("Ref", oid)):
        return None
      n = add(add(add(t, l), T("Len", r), -1), K(1 - v[0]))
      s = s.fork()
      s.heap[oid] = o.with_log(old + tuple(self.repeated(st, es, n)))
      return s
    return None

  def binop(self, st, op, a, b, fr, n):
    if a.op == "K" and b.op == "K":
      x, y = kval(a), kval(b)
      try:
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "//": lambda: x // y, "%": lambda: x % y,
             "/": lambda: x / y, "**": lambda: x**y, "|": lambda: x | y, "&": lambda: x & y}[op]()
        yield st, K(r)
        return
      except Exception:
        pass
    if op in ("-", "&", "|", "^") and "KeysOf" in (a.op, b.op):
      for s, x in self.call(st, Ext("set"), [a], [], fr, n):
        if isinstance(x, Raised):
          yield s, x
          continue
        for s2, y in self.call(s, Ext("set"), [b], [], fr, n):
          if isinstance(y, Raised):
            yield s2, y
          else:
            yield from self.binop(s2, op, x, y, fr, n)
      return
    if op == "+" and any(v.op in ("Fmt", "Join") or isK(v, str) or self.types.get(v) == "str" for v in (a, b)):
      yield st, fmt([self.reify_light(st, a), self.reify_light(st, b)])
      return
    shape = lambda v: v.op == "At" and v.a[1] == "shape" or v.op == "Slice" and shape(v.a[0])
    seqlike = lambda v: v.op in ("Tup", "Seq") or (v.op == "Ref" and self.obj(st, v).kind in ("list",))
    if op == "+" and (seqlike(a) or seqlike(b) or shape(a) or shape(b)):
      ea = self.entries(st, a) if seqlike(a) else [X(a)]
      eb = self.entries(st, b) if seqlike(b) else [X(b)]
      if ea is not None and eb is not None:
        if any(v.op == "Ref" or (v.op == "Seq" and v.a[0] == "list") for v in (a, b)):
          yield st, self.alloc(st, "list", log=ea + eb)
        else:
          yield st, Tup(ea + eb)
        return
    if op == "*" and seqlike(a) and isK(b, int):
      e = self.entries(st, a)
      if e is not None:
        yield st, (self.alloc(st, "list", log=e * kval(b)) if a.op == "Ref" else Tup(e * kval(b)))
        return
    if op == "*" and seqlike(b) and not seqlike(a) and b.op == "Ref":
      a, b = b, a
    if op == "*" and a.op == "Ref" and seqlike(a) and not seqlike(b):
      e = self.entries(st, a)
      if e is not None and len(e) == 1:
        yield st, self.alloc(st, "list", log=self.repeated(st, e, self.reify_light(st, b)))
        return
    if op == "|" and (a.op == "Ref" or b.op == "Ref"):
      ref = None
      for v in (a, b):
        if v.op == "Ref" and self.obj(st, v).kind in ("dict", "set"):
          kind = self.obj(st, v).kind
          ref = ref or self.alloc(st, kind)
      if ref is not None:
        for v in (a, b):
          if self.obj(st, ref).kind == "dict":
            self.dict_update(st, ref, v)
          else:
            self.seq_extend(st, ref, v)
        yield st, ref
        return
    if op in ("-", "&") and all(v.op == "Ref" and self.obj(st, v).kind == "set" for v in (a, b)):
      ea = self.obj(st, a).log
      if 0 < len(ea) <= 4 and all(x.op in ("K", "P") for x in ea):
        ways = [(st, ())]
        for x in ea:  # each of the few it has stays or goes
          out = []
          for s, kept in ways:
            for s2, has in self.contains(s, x, b, fr):
              if isinstance(has, Raised):
                raise Unsupported("set difference")
              out.append((s2, kept + ((x,) if has == (op == "&") else ())))
          ways = out
        for s, kept in ways:
          yield s, self.alloc(s, "set", log=kept)
        return
      st = st.fork()
      ref = self.alloc(st, "set")

      def keep(s, x):
        for s2, has in self.contains(s, x, b, fr):
          if isinstance(has, Raised):
            raise Unsupported("set difference")
          if has == (op == "&"):
            s2 = s2.fork()
            self.log_add(s2, ref, x)
          yield s2, None

      for s, _ in self.loop(st, a, keep, fr, n, []):
        yield s, ref
      return
    # operators of known classes
    for x, y, meth in ((a, b, {"|": "__or__", "-": "__sub__", "+": "__add__"}.get(op)),):
      c = self.obj(st, x).cls if x.op == "Ref" and self.obj(st, x).kind == "inst" else self.type_of(st, x) if x.op != "Ref" else None
      if c in self.p.classes and meth and self.p.find_method(c, meth):
        yield from self.call(st, T("Bound", self.method_fn(c, meth), x), [y], [], fr, n)
        return
    a, b = self.reify_light(st, a), self.reify_light(st, b)
    integer = lambda v: self.types.get(v) == "int"
    if op in "+-" and (numeric(a) or numeric(b) or integer(a) or integer(b)) and not (isK(a, str) or isK(b, str)):
      yield st, add(a, b, 1 if op == "+" else -1)
      return
    if op == "-":
      # State difference and array subtraction alike
      yield st, T("Op", "-", a, b)
      return
    if op == "*" and not (seqlike(a) or seqlike(b)):
      yield st, mul(a, b)
      return
    if op == "+":
      # keep concatenation ordered unless both sides are clearly numeric
      if a.op == "Poly" or b.op == "Poly":
        yield st, add(a, b)
        return
    yield st, T("Op", op, a, b)

  def ev_Compare(self, n, st, fr):
    def go(i, left, st):
      for s, right in self.ev(n.comparators[i], st, fr):
        if isinstance(right, Raised):
          yield s, right
          continue
        for s2, b in self.compare(s, n.ops[i], left, right, fr):
          if isinstance(b, Raised):
            yield s2, b
          elif not b:
            yield s2, FALSE
          elif i == len(n.ops) - 1:
            yield s2, TRUE
          else:
            yield from go(i + 1, right, s2)

    for s, l in self.ev(n.left, st, fr):
      if isinstance(l, Raised):
        yield s, l
      else:
        yield from go(0, l, s)

  def compare(self, st, op, a, b, fr):
    neg_ = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
    if isinstance(op, (ast.Is, ast.IsNot)):
      it = self.identical(st, a, b)
    elif isinstance(op, (ast.Eq, ast.NotEq)):
      it = self.equal(st, a, b, fr)
    elif isinstance(op, (ast.In, ast.NotIn)):
      it = self.contains(st, a, b, fr)
    elif isinstance(op, (ast.LtE, ast.GtE)) and all(x.op == "KeysOf" or x.op == "Ref" and self.obj(st, x).kind == "set" for x in (a, b)):
      it = self.subset(st, *((a, b) if isinstance(op, ast.LtE) else (b, a)), fr)
    elif isinstance(op, ast.Lt):
      it = self.less(st, a, b)
    elif isinstance(op, ast.Gt):
      it = self.less(st, b, a)
    elif isinstance(op, ast.LtE):
      it = ((s, not v) for s, v in self.less(st, b, a))
    else:
      it = ((s, not v) for s, v in self.less(st, a, b))
    for s, v in it:
      yield s, v if isinstance(v, Raised) else v != neg_

  def subset(self, st, a, b, fr):
    for s, x in self.call(st, Ext("set"), [a], [], fr, None):
      for s2, y in self.call(s, Ext("set"), [b], [], fr, None):
        for s3, r in self.binop(s2, "-", x, y, fr, None):
          for s4, more in self.truth(s3, r, fr):
            yield s4, not more

  def identical(self, st, a, b):
    if a is b and a.op not in ("New",):
      yield st, True
      return
    if a.op == "K" and b.op == "K":
      yield st, a is b
      return
    if a.op == "Ref" and b.op == "Ref":
      yield st, False
      return
    if a.op == "P" and b.op in ("Ref", "Fn", "Bound", "Tup") or b.op == "P" and a.op in ("Ref", "Fn", "Bound", "Tup"):
      yield st, False  # made during the analysed call
      return
    if NONE in (a, b):
      a, b = self.whole(a), self.whole(b)
    ca, cb = self.never(st, a), self.never(st, b)
    if (ca and b.op == "K") or (cb and a.op == "K"):
      yield st, False
      return
    for x, y in ((a, b), (b, a)):  # a private sentinel is not what a caller passes
      if x.op == "Glob" and self.glob_plain_object(x) and y.op in ("P", "K", "Ref", "Tup", "Seq", "Fn", "Cls", "Ext", "Glob"):
        yield st, False
        return
    if b.op in ("Cls", "Ext") or a.op in ("Cls", "Ext"):
      x, y = (a, b) if b.op in ("Cls", "Ext") else (b, a)
      if y.op in ("Cls", "Ext") and x.op in ("Cls", "Ext"):
        yield st, False
        return
      if x.op == "Type" or y.op == "Cls":
        yield from self.atom(st, T("A.eq", self.reify_light(st, x), y))
        return
    a, b = self.reify_light(st, a), self.reify_light(st, b)
    if "Type" in (a.op, b.op) and "K" not in (a.op, b.op) and not any(x.op == "Glob" for x in (a, b)):
      yield from self.equal(st, a, b, None)  # classes are equal when they are the same
      return
    if a.op == "K" or (b.op != "K" and show(b) < show(a)):
      a, b = b, a
    if a.op == "At" and a.a[0].op == "Cls" or b.op == "At" and b.a[0].op == "Cls":
      if a.op == "At" and a.a[0].op == "Cls":
        a, b = b, a
      yield from self.atom(st, T("A.eq", a, b))
      return
    yield from self.atom(st, T("A.is", a, b))

  def whole(self, t):
    """A slice or an elementwise image of a pytree is None exactly when the pytree is."""
    while True:
      if t.op == "ScanX":
        t = t.a[0]
      elif t.op == "Ap" and t.a[0] is Ext("jax.tree_util.tree_map") and len(t.a[1]) == 2:
        t = t.a[1][1]
      else:
        return t

  def never(self, st, v):
    """Cannot be identical to a constant such as None."""
    return v.op in ("Ref", "Tup", "Seq", "Fn", "Cls", "Bound", "Lam", "New", "Inst", "Poly", "Len", "Vars", "Type", "Hof", "Partial", "Mod", "Slice", "Fmt", "Op", "Ext", "BM") or v.op == "P" and self.types.get(v) in ("list", "dict", "tuple", "str", "int", "set") or v.op == "Ap" and v.a[0].op == "Ext" and class_name(v.a[0].a[0]) or v.op in ("At", "It") and v.a[1] in self.hooks.get("never_none", ()) or v.op == "It" and (parted(v.a[0]) or v.a[0].op == "At" and v.a[0].a[1] == "shape") or v.op == "AnyOf" and self.never_any(st, v.a[0]) or v.op == "It" and (self.type_of(st, v) is not None or of_signature(v.a[0]))

  def never_any(self, st, s):
    """Every item of the set is something other than None."""
    if s.op != "Seq" or len(s.a) < 2:
      return False

    def body(t):
      if t.op == "If":
        return body(t.a[1]) and body(t.a[2])
      return t.op in ("Hole", "Raise") or t.op == "Ent" and len(t.a) == 1 and all(item(x) for x in t.a[0])

    def item(e):
      return body(e.a[1]) if e.op == "For" else e.op not in ("X", "LE", "Fix", "Each", "Carried") and self.never(st, e)

    return all(item(e) for e in s.a[1:])

  def equal(self, st, a, b, fr):
    if a is b:
      yield st, True
      return
    if a.op == "K" and b.op == "K":
      yield st, kval(a) == kval(b)
      return
    if intlike(a) and isK(b, int):
      yield from self.cmp_int(st, a, kval(b), kval(b))
      return
    if intlike(b) and isK(a, int):
      yield from self.cmp_int(st, b, kval(a), kval(a))
      return
    if (intlike(a) or intlike(b)) and not (a.op == "K" or b.op == "K"):
      d = add(a, b, -1)
      base, off = self.lin(d)
      if base.op == "K":
        yield st, kval(base) + off == 0
        return
      flip = show(neg(base)) < show(base)
      if flip:
        base, off = neg(base), -off
      yield from self.atom(st, T("A.eq", base, K(-off)))
      return
    if any(x.op == "Glob" and self.only_itself(x) for x in (a, b)):
      yield from self.identical(st, a, b)
      return
    for x, y in ((a, b), (b, a)):
      if x.op == "Ref" and self.obj(st, x).kind == "inst":
        o = self.obj(st, x)
        m = self.method_fn(o.cls, "__eq__") if o.cls else None
        if m is not None and not self.is_opaque(self.clos[m.a[0]].qual):
          for s, r in self.call(st, T("Bound", m, x), [y], [], fr, None):
            if isinstance(r, Raised):
              yield s, r
            else:
              yield from self.truth(s, r, fr)
          return
      c = self.types.get(x)
      if c is not None and x.op != "Ref":
        m = self.method_fn(c, "__eq__")
        if m is not None and not self.is_opaque(self.clos[m.a[0]].qual):
          for s, r in self.call(st, T("Bound", m, x), [y], [], fr, None):
            if isinstance(r, Raised):
              yield s, r
            else:
              yield from self.truth(s, r, fr)
          return
    if a.op == "Tup" and b.op == "Tup" and fixed(a.a) and fixed(b.a):
      if len(a.a) != len(b.a):
        yield st, False
        return

      def go(i, st):
        if i == len(a.a):
          yield st, True
          return
        for s, v in self.equal(st, a.a[i], b.a[i], fr):
          if isinstance(v, Raised) or not v:
            yield s, v
          else:
            yield from go(i + 1, s)

      yield from go(0, st)
      return
    if (a.op == "Tup" and not a.a) or (b.op == "Tup" and not b.a):
      x = b if a.op == "Tup" else a
      if x.op not in ("Tup", "K"):
        yield from self.atom(st, T("A.eq", self.reify_light(st, x), Tup(())))
        return
    a, b = self.reify_light(st, a), self.reify_light(st, b)
    if a is b:
      yield st, True
      return
    if constlike(a) and not constlike(b) or (constlike(a) == constlike(b) and show(b) < show(a)):
      a, b = b, a
    if isK(b) and kval(b) in (None, ...) and not isinstance(kval(b), (int, float)):
      yield from self.atom(st, T("A.is", a, b))
      return
    yield from self.atom(st, T("A.eq", a, b))

  def less(self, st, a, b):
    if a.op == "K" and b.op == "K":
      try:
        yield st, kval(a) < kval(b)
        return
      except TypeError:
        pass
    a, b = self.reify_light(st, a), self.reify_light(st, b)
    if (intlike(a) or intlike(b) or isK(a, int) or isK(b, int)) and not isK(a, float) and not isK(b, float):
      d = add(a, b, -1)  # a - b < 0
      base, off = self.lin(d)
      if base.op == "K":
        yield st, kval(base) + off < 0
        return
      p = poly(base)
      lead = sorted(p.items(), key=lambda kv: show(kv[0]))[0][1]
      if lead < 0:
        # -t + off < 0  <=>  t > off
        for s, v in self.cmp_int(st, neg(base), -INF, off):
          yield s, not v
      else:
        yield from self.cmp_int(st, base, -INF, -off - 1)
      return
    yield from self.atom(st, T("A.lt", a, b))

  def contains(self, st, x, c, fr):
    if c.op == "Ref" and self.obj(st, c).kind == "inst":
      o = self.obj(st, c)
      for mn in ("__contains__",):
        m = self.method_fn(o.cls, mn) if o.cls else None
        if m is not None:
          for s, r in self.call(st, T("Bound", m, c), [x], [], fr, None):
            if isinstance(r, Raised):
              yield s, r
            else:
              yield from self.truth(s, r, fr)
          return
    if c.op in ("KeysOf",):
      c = c.a[0]
    if c.op == "At" and c.a[1] == "parameters" and c.a[0].op == "Ap" and c.a[0].a[0] is Ext("inspect.signature") and isK(x, str):
      from .builtins_model import REGISTER
      f = c.a[0].a[1][0] if c.a[0].a[1] else None
      if f is not None and f.op == "Ext" and f.a[0] in REGISTER:
        yield st, kval(x) in REGISTER[f.a[0]]
        return
    if c.op == "Vars" and c.a[0].op == "Ref" and isK(x, str):
      ob = self.obj(st, c.a[0])
      if kval(x) in ob.fields:
        yield st, True
        return
      if "$open" in ob.fields:
        yield from self.contains(st, x, ob.fields["$open"], fr)
        return
      if ob.cls in self.hooks.get("construct", ()) and not any(k[0].op == "Vars" and k[0].a[0].op in ("New", "Inst") for k in st.over if isinstance(k, tuple) and isinstance(k[0], T)):
        yield st, False
        return
    if x.op == "Glob" and self.only_itself(x) and (c.op == "Ref" and self.obj(st, c).kind in ("list", "tuple") or c.op in ("Tup", "Seq") and c.a[:1] != ("dict",)):
      # an object that equals nothing but itself is among them exactly if one of them is it
      env = next(self.ids)
      st = st.fork()
      st.envs[env] = {"$parent": fr.env, "x__": x, "c__": c}
      f2 = Frame(env=env, mod=fr.mod, cls=fr.cls, qual=fr.qual, stack=fr.stack, depth=fr.depth, node=fr.node)
      for s, r in self.ev(AMONG, st, f2):
        if isinstance(r, Raised):
          raise Unsupported("membership")
        yield from self.truth(s, r, fr)
      return
    ct = self.types.get(c)
    if c.op == "K" and isinstance(kval(c), str) and isK(x, str):
      yield st, kval(x) in kval(c)
      return
    if c.op == "Ref" or c.op in ("Tup", "Seq"):
      e = self.entries(st, c)
      if e is not None:
        res = self.member(st, x, e, fr, 0, c)
        yield from res
        return
    c = self.reify_light(st, c)
    k = (c, T("has", self.reify_light(st, x)))
    if k in st.over:
      yield st, st.over[k] is TRUE
      return
    yield from self.atom(st, T("A.in", self.reify_light(st, x), c))

  def member(self, st, x, e, fr, i, c):
    if i == len(e):
      yield st, False
      return
    h = e[i]
    if h.op == "X":
      r = h.a[0]
      if r.op == "KeysOf":
        r = r.a[0]
      xr = self.reify_light(st, x)
      for s, b in self.atom(st, T("A.in", xr, self.reify(st, r))):
        if b:
          yield s, True
        else:
          yield from self.member(s, x, e, fr, i + 1, c)
      return
    if h.op == "LE":
      xr = self.reify_light(st, x)
      for s, b in self.atom(st, T("A.in", xr, T("Seq", "set", h))):
        if b:
          yield s, True
        else:
          yield from self.member(s, x, e, fr, i + 1, c)
      return
    for s, b in self.equal(st, x, h, fr):
      if isinstance(b, Raised) or b:
        yield s, b
      else:
        yield from self.member(s, x, e, fr, i + 1, c)

  def ev_Lambda(self, n, st, fr):
    yield from self.make_closure(n, st, fr, "<lambda>")

  def make_closure(self, n, st, fr, name):
    nodes = list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
    for s, vs in self.evs(nodes, st, fr):
      if isinstance(vs, Raised):
        yield s, vs
        continue
      c = self.closure(n, fr.mod, None, fr.env, fr.qual + "." + name)
      nd = len(n.args.defaults)
      c.defaults = vs[:nd]
      it = iter(vs[nd:])
      c.kwdefaults = [next(it) if d is not None else None for d in n.args.kw_defaults]
      if not isinstance(n, ast.Lambda):
        for d in n.decorator_list:
          t = None
          dn = dotted_of(d)
          if dn:
            try:
              t = self.lookup(s, dn.split(".")[0], fr)
              for part in dn.split(".")[1:]:
                t = Ext(canon_ext(t.a[0] + "." + part)) if t.op == "Ext" else None
            except Exception:
              t = None
          if t is not None and t.op == "Ext" and t.a[0] == "contextlib.contextmanager":
            c.ctxmgr = True
      yield s, self.fn_term(c)

  def ev_ListComp(self, n, st, fr):
    yield from self.comp(n, st, fr, "list")

  def ev_SetComp(self, n, st, fr):
    yield from self.comp(n, st, fr, "set")

  def ev_GeneratorExp(self, n, st, fr):
    yield from self.comp(n, st, fr, "iter")

  def ev_DictComp(self, n, st, fr):
    yield from self.comp(n, st, fr, "dict")

  def comp(self, n, st, fr, kind):
    """Comprehensions are loops that append."""
    st = st.fork()
    ref = self.alloc(st, kind)
    env = next(self.ids)
    st.envs[env] = {"$parent": fr.env}
    f2 = Frame(env=env, mod=fr.mod, cls=fr.cls, qual=fr.qual, stack=fr.stack, depth=fr.depth, node=fr.node)
    f2.selfterm = fr.selfterm
    names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})

    def level(i, st):
      if i == len(n.generators):
        if kind == "dict":
          for s, kv in self.evs([n.key, n.value], st, f2):
            if isinstance(kv, Raised):
              yield s, ("raise", kv)
            else:
              self.dict_put(s, ref, kv[0], kv[1])
              yield s, None
        else:
          for s, v in self.ev(n.elt, st, f2):
            if isinstance(v, Raised):
              yield s, ("raise", v)
            else:
              self.log_add(s, ref, v)
              yield s, None
        return
      g = n.generators[i]
      for s, it in self.ev(g.iter, st, f2):
        if isinstance(it, Raised):
          yield s, ("raise", it)
          continue

        def body(st2, elem, g=g, i=i):
          for s2, sig in self.assign(g.target, elem, st2, f2):
            if sig is not None:
              yield s2, sig
              continue
            yield from conds(g.ifs, 0, s2, i)

        yield from self.loop(s, it, body, f2, n, [])

    def conds(ifs, j, st, i):
      if j == len(ifs):
        yield from level(i + 1, st)
        return
      for s, c in self.ev(ifs[j], st, f2):
        if isinstance(c, Raised):
          yield s, ("raise", c)
          continue
        for s2, b in self.truth(s, c, f2):
          if b:
            yield from conds(ifs, j + 1, s2, i)
          else:
            yield s2, None

    for s, sig in level(0, st):
      if sig is not None and sig[0] == "raise":
        yield s, sig[1]
      else:
        yield s, ref

  def ev_Call(self, n, st, fr):
    # super() needs the frame
    if isinstance(n.func, ast.Name) and n.func.id == "super" and fr.cls:
      s = st
      yield s, T("Super", fr.cls, self.frame_self(st, fr) or NONE)
      return
    for s, f in self.ev(n.func, st, fr):
      if isinstance(f, Raised):
        yield s, f
        continue
      for s2, args in self.evs(n.args, s, fr):
        if isinstance(args, Raised):
          yield s2, args
          continue
        for s3, kvs in self.evs([k.value for k in n.keywords], s2, fr):
          if isinstance(kvs, Raised):
            yield s3, kvs
            continue
          kw = self.merge_kwargs(s3, [(k.arg, v) for k, v in zip(n.keywords, kvs)])
          yield from self.call(s3, f, args, kw, fr, n)

  def merge_kwargs(self, st, kws):
    out = []
    for k, v in kws:
      if k is not None:
        out.append((k, v))
        continue
      log = None
      if v.op == "Vars" and v.a[0].op == "Ref" and self.obj(st, v.a[0]).kind == "inst" and self.obj(st, v.a[0]).cls in self.hooks.get("construct", ()):
        ob = self.obj(st, v.a[0])
        if "$open" in ob.fields:
          out.extend(self.merge_kwargs(st, [(None, ob.fields["$open"])]))
        out.extend((k2, v2) for k2, v2 in ob.fields.items() if not k2.startswith("$"))
        continue
      if v.op == "Ref" and self.obj(st, v).kind == "dict":
        log = self.obj(st, v).log
      elif v.op == "Seq" and v.a[0] == "dict":
        log = v.a[1:]
      if log is not None and all(e.op in ("put", "X", "LE") for e in log):
        last = max([n for n, e in enumerate(log) if e.op != "put"], default=-1)

        def apart(e, x):
          return e.op == "put" and x.op == "X" and st.facts.query(T("A.in", e.a[0], x.a[0])) is False

        if any(not apart(e, x) for n, e in enumerate(log[: last + 1]) for x in log[n + 1 : last + 1] if x.op != "put"):
          # a later part overrides an earlier one: the order counts
          out.append((None, T("Seq", "dict", *(self.reify(st, e) for e in log[: last + 1]))))
          log = log[last + 1 :]
        for e in log:
          if e.op == "put" and isK(e.a[0], str):
            out.append((kval(e.a[0]), e.a[1]))
          elif e.op == "X":
            out.append((None, e.a[0]))
          else:
            out.append((None, T("Seq", "dict", self.reify(st, e))))
      else:
        out.append((None, self.reify(st, v)))
    return out

  def frame_self(self, st, fr):
    if fr.selfterm is not None:
      return fr.selfterm
    e = fr.env
    while e is not None:
      env = st.envs[e]
      if "$self" in env:
        return env["$self"]
      e = env.get("$parent")
    return None

  def ev_Yield(self, n, st, fr):
    it = self.ev(n.value, st, fr) if n.value is not None else [(st, NONE)]
    for s, v in it:
      if isinstance(v, Raised):
        yield s, v
        continue
      if fr.on_yield is not None:
        yield from fr.on_yield(s, v)
      else:
        self.log_add(s, fr.yields, v)
        yield s, NONE

  def ev_YieldFrom(self, n, st, fr):
    for s, v in self.ev(n.value, st, fr):
      if isinstance(v, Raised):
        yield s, v
        continue
      for s1, es in self.splice(s, v, fr):
        if isinstance(es, Raised):
          yield s1, es
          continue
        for e in es:
          self.log_add(s1, fr.yields, e)
        yield s1, NONE

  def ev_Await(self, n, st, fr):
    st.flag("unmodelled:await")
    yield from self.ev(n.value, st, fr)

  # ----------------------------------------------------------- containers
  def log_add(self, st, ref, e):
    o = self.obj(st, ref)
    self.put(st, ref, o.with_log(o.log + (e,)))

  def dict_put(self, st, ref, k, v):
    o = self.obj(st, ref)
    log = list(o.log)
    k = self.reify_light(st, k)
    for i in range(len(log) - 1, -1, -1):
      e = log[i]
      if e.op == "put" and e.a[0] is k:
        if isK(k) and all(x.op == "put" and isK(x.a[0]) for x in log[i:]):
          log[i] = T("put", k, v)  # keeps its position
          self.put(st, ref, o.with_log(tuple(log)))
          return
        if all(x.op in ("put", "X") for x in log[i:]):
          del log[i]
        break
      if e.op not in ("put", "X"):
        break
    self.put(st, ref, o.with_log(tuple(log) + (T("put", k, v),)))

  def underlying(self, st, v, fr=None):
    """The dict an instance of a mapping class shows through __iter__ and __getitem__, when it is one of its fields."""
    if v.op == "Inst" and v.a[0].op == "Cls":
      q, fields, src = v.a[0].a[0], dict(v.a[1]), v
    elif v.op == "Ref" and self.obj(st, v).kind == "inst":
      o = self.obj(st, v)
      q, fields, src = o.cls, o.fields, v
    else:
      return None
    if q is None or q not in self.p.classes or not ({"Mapping", "MutableMapping"} & set(self.p.mro(q))):
      return None
    for f in fields.values():
      if not (f.op == "Ref" and self.obj(st, f).kind == "dict" or f.op == "Seq" and f.a[0] == "dict"):
        continue
      s = st.fork()
      r = src
      if src.op == "Inst":
        r = self.alloc(s, "inst", q, fields)
      fr = fr or self.root_frame(self.p.classes[q].mod)
      res = list(self.call(s, T("Bound", self.method_fn(q, "__iter__"), r), [], [], fr, None))
      if len(res) != 1 or isinstance(res[0][1], Raised) or self.entries(res[0][0], res[0][1]) != self.entries(s, f):
        continue
      probe = T("Probe")
      res = list(self.call(s.fork(), T("Bound", self.method_fn(q, "__getitem__"), r), [probe], [], fr, None))
      exp = list(self.getitem(s.fork(), f, probe, fr, None))
      if {x for _, x in res if not isinstance(x, Raised)} == {x for _, x in exp if not isinstance(x, Raised)}:
        return f
    return None

  def dict_update(self, st, ref, v):
    if v.op in ("Ref", "Inst"):
      u = self.underlying(st, v)
      if u is not None:
        v = u
    if v.op == "Ref":
      o = self.obj(st, v)
      if o.kind == "dict":
        for e in o.log:
          if e.op == "put":
            self.dict_put(st, ref, e.a[0], e.a[1])
          else:
            self.log_add(st, ref, e)
        return
      if o.kind in ("list", "iter"):
        self.drain(st, v)
        for e in o.log:
          if e.op == "Tup" and len(e.a) == 2:
            self.dict_put(st, ref, *e.a)
          elif e.op == "LE":
            self.log_add(st, ref, T("LE", e.a[0], (e.a[1], "pairs")))
          else:
            self.log_add(st, ref, X(self.reify(st, T("Pairs", e))))
        return
    if v.op == "Seq" and v.a[0] == "dict":
      for e in v.a[1:]:
        if e.op == "put":
          self.dict_put(st, ref, e.a[0], e.a[1])
        else:
          self.log_add(st, ref, e)
      return
    if v.op == "ItemsOf":
      self.dict_update(st, ref, v.a[0])
      return
    if v.op == "Vars" and (v.a[0].op == "Ref" and self.obj(st, v.a[0]).kind == "inst" or v.a[0].op == "Inst"):
      fields = self.obj(st, v.a[0]).fields if v.a[0].op == "Ref" else dict(v.a[0].a[1])
      if "$open" in fields:
        self.dict_update(st, ref, fields["$open"])
      for k, x in fields.items():
        if not k.startswith("$"):
          self.dict_put(st, ref, K(k), x)
      return
    if v.op == "Tup" and all(e.op == "Tup" and len(e.a) == 2 for e in v.a):
      for e in v.a:
        self.dict_put(st, ref, *e.a)
      return
    if v.op == "Tup" and all(e.op == "Tup" and len(e.a) == 2 or e.op == "LE" for e in v.a):
      for e in v.a:
        if e.op == "LE":
          self.log_add(st, ref, T("LE", e.a[0], (e.a[1], "pairs")))
        else:
          self.dict_put(st, ref, *e.a)
      return
    self.log_add(st, ref, X(self.reify(st, v)))

  def seq_extend(self, st, ref, v):
    e = self.entries(st, v)
    o = self.obj(st, ref)
    if e is None:
      e = [X(self.reify(st, v))]
    self.drain(st, v)
    self.put(st, ref, o.with_log(o.log + tuple(e)))

  # ------------------------------------------------------------ attributes
  def getattr(self, st, o, name, fr, node):
    op = o.op
    if op == "Mod":
      k = (o, name)
      if k in st.over:
        yield st, st.over[k]
        return
      t = self.p.member(o.a[0], name)
      yield st, self.norm_global(t) if t is not None else T("At", o, name)
      return
    if op == "Ext":
      yield st, Ext(canon_ext(o.a[0] + "." + name))
      return
    if op == "Cls":
      yield from self.cls_attr(st, o, name, fr, node)
      return
    if op == "Super":
      cls, slf = o.a
      hit = self.p.find_method(self.super_start(st, slf, cls), name, after=cls)
      if hit is not None:
        c, nd = hit
        k = ("m", c.qual, name)
        if k not in self.fcache:
          cl = self.closure(nd, c.mod, c.qual, None, f"{c.qual}.{name}")
          self.fcache[k] = self.fn_term(cl)
        yield st, T("Bound", self.fcache[k], slf)
        return
      yield st, T("At", T("SuperOf", self.reify_light(st, slf)), name)
      return
    if op == "It" and name in PARAMETER_KINDS and of_signature(o.a[0]):
      yield st, Ext("inspect.Parameter." + name)
      return
    if name == "__dict__":
      yield st, self.vars_of(st, o)
      return
    if name == "__class__":
      yield st, self.type_term(st, o)
      return
    if op == "Ref":
      ob = self.obj(st, o)
      if ob.kind == "inst":
        yield from self.inst_attr(st, o, ob, name, fr, node)
        return
      yield st, T("BM", o, name)
      return
    if op in ("Tup", "Seq", "KeysOf", "ItemsOf", "ValuesOf", "Vars") or (op == "K" and isinstance(kval(o), (str, bytes))) or op in ("Fmt", "Range", "Zip", "Sorted"):
      yield st, T("BM", o, name)
      return
    if op == "Fn":
      c = self.clos[o.a[0]]
      if name == "__name__":
        yield st, K(c.qual.split(".")[-1])
        return
      yield st, T("At", self.reify(st, o), name)
      return
    k = (o, name)
    if k in st.over:
      v = st.over[k]
      if v.op == "New" and v.a[0].op == "Cls" and "nnx.containers.Container" in self.p.mro(v.a[0].a[0]) and self.types.get(o) and v.a[1]:
        v = v.a[1][0]
      yield st, v
      return
    c = self.type_of(st, o)
    if c is not None and c in self.p.classes:
      hit = self.p.find_method(c, name)
      if hit is not None:
        cc, nd = hit
        kind = self.deco_kind(nd)
        qual = f"{cc.qual}.{name}"
        known = self.types.get(o) is not None  # declared receiver of the entry: its own methods are inlined
        if kind in ("property", "cached_property"):
          if not self.is_opaque(qual) and (known or name not in API):
            yield from self.call(st, T("Bound", self.method_fn(c, name), o), [], [], fr, node)
            return
        elif kind == "classmethod":
          if known and not self.is_opaque(qual):
            yield st, T("Bound", self.method_fn(c, name), T("Cls", c))
            return
        elif kind == "staticmethod":
          if known and not self.is_opaque(qual):
            yield st, self.method_fn(c, name)
            return
        elif not self.is_opaque(qual) and ((known) or name not in API):
          yield st, T("Bound", self.method_fn(c, name), o)
          return
        yield st, T("At", o, name)
        return
      ca = self.p.find_attr(c, name)
      if ca is None and self.p.find_method(c, "__getattr__") and known_field(self, c, name) is False and self.types.get(o):
        m = self.method_fn(c, "__getattr__")
        if not self.is_opaque(self.clos[m.a[0]].qual):
          yield from self.call(st, T("Bound", m, o), [K(name)], [], fr, node)
          return
    elif name not in API and not name.startswith("__"):
      cc = self.p.unique_method(name)
      if cc is not None and not self.is_opaque(f"{cc.qual}.{name}") and name.startswith("_"):
        kind = self.deco_kind(cc.methods[name])
        if kind is None:
          yield st, T("Bound", self.method_fn(cc.qual, name), o)
          return
        if kind == "property":
          yield from self.call(st, T("Bound", self.method_fn(cc.qual, name), o), [], [], fr, node)
          return
    if op == "Inst":
      for kk, vv in o.a[1]:
        if kk == name:
          yield st, vv
          return
    if st.tries and fine_try(st.tries) and name not in API and not (c in self.p.classes and self.p.always_has(c, name)):
      for s, b in self.atom(st, T("A.hasattr", self.reify_light(st, o), K(name))):
        if b:
          yield s, T("At", self.reify_light(s, o), name)
        else:
          yield s, Raised(Ext("AttributeError"), self.site(node, fr))
      return
    yield st, T("At", self.reify_light(st, o), name)

  def super_start(self, st, slf, cls):
    c = self.types.get(slf)
    if slf.op == "Ref" and self.obj(st, slf).kind == "inst":
      c = self.obj(st, slf).cls
    if slf.op == "Cls":
      c = slf.a[0]
      mc = self.p.metaclass_of(c)
      if cls not in self.p.mro(c) and mc is not None and mc.op == "Cls":
        c = mc.a[0]
    if c is not None and cls in self.p.mro(c):
      return c
    return cls

  def vars_of(self, st, o):
    if o.op == "Ref" and self.obj(st, o).kind == "inst":
      return T("Vars", o)
    return T("Vars", self.reify_light(st, o))

  def type_term(self, st, o):
    if o.op == "Ref":
      ob = self.obj(st, o)
      if ob.kind == "inst":
        return T("Cls", ob.cls)
      return Ext({"iter": "generator"}.get(ob.kind, ob.kind))
    if o.op == "K":
      return Ext(type(kval(o)).__name__)
    if o.op == "Tup":
      return Ext("tuple")
    if o.op in ("New", "Inst") and o.a[0].op == "Cls":
      return o.a[0]
    return T("Type", self.reify_light(st, o))

  def cls_attr(self, st, o, name, fr, node):
    q = o.a[0]
    if q not in self.p.classes:
      yield st, T("At", o, name)
      return
    if name == "__name__":
      yield st, K(q.split(".")[-1])
      return
    hit = self.p.find_method(q, name)
    if hit is not None:
      c, nd = hit
      kind = self.deco_kind(nd)
      if self.is_opaque(f"{c.qual}.{name}"):
        yield st, T("At", o, name)
      elif kind == "classmethod":
        yield st, T("Bound", self.method_fn(q, name), o)
      else:
        yield st, self.method_fn(q, name)
      return
    # metaclass methods
    mc = self.p.metaclass_of(q)
    if mc is not None and mc.op == "Cls":
      hit = self.p.find_method(mc.a[0], name)
      if hit is not None:
        yield st, T("Bound", self.method_fn(mc.a[0], name), o)
        return
    a = self.p.find_attr(q, name)
    if a is not None and not self.is_enum(q):
      c, nd = a
      if isinstance(nd, ast.Constant):
        yield st, K(nd.value)
        return
    yield st, T("At", o, name)

  def is_enum(self, q):
    return any(x in ("enum.Enum", "Enum", "enum.IntEnum") for x in self.p.mro(q))

  def inst_attr(self, st, ref, ob, name, fr, node):
    q = ob.cls
    if name in ob.fields:
      if q in self.hooks.get("construct", ()):
        m = self.method_fn(q, "__getattribute__")
        if m is not None and ob.fields[name].op not in ("Tup", "K", "Cls", "Fn", "Lam"):
          yield from self.call(st, T("Bound", m, ref), [K(name)], [], fr, node)
          return
      yield st, ob.fields[name]
      return
    hit = self.p.find_method(q, name)
    if hit is not None:
      c, nd = hit
      kind = self.deco_kind(nd)
      m = self.method_fn(q, name)
      if kind in ("property", "cached_property"):
        yield from self.call(st, T("Bound", m, ref), [], [], fr, node)
      elif kind == "classmethod":
        yield st, T("Bound", m, T("Cls", q))
      elif kind == "staticmethod":
        yield st, m
      else:
        yield st, T("Bound", m, ref)
      return
    a = self.p.find_attr(q, name)
    if a is not None:
      c, nd = a
      f2 = Frame(env=next(self.ids), mod=c.mod, cls=None, qual=c.qual, stack=fr.stack, depth=fr.depth, node=None)
      st.envs[f2.env] = {"$parent": None}
      yield from self.ev(nd, st, f2)
      return
    if "$open" in ob.fields:
      yield from self.getitem(st, ob.fields["$open"], K(name), fr, node)
      return
    m = self.p.find_method(q, "__getattr__")
    if m is not None:
      yield from self.call(st, T("Bound", self.method_fn(q, "__getattr__"), ref), [K(name)], [], fr, node)
      return
    yield st, T("At", self.reify(st, ref), name)

  def setattr(self, st, o, name, v, fr, node):
    site = self.site(node, fr)
    if o.op == "Ref" and self.obj(st, o).kind == "inst":
      ob = self.obj(st, o)
      setter = self.p.find_method(ob.cls, name + ".setter") if ob.cls else None
      if setter:
        c, nd = setter
        cl = self.closure(nd, c.mod, c.qual, None, f"{c.qual}.{name}.setter")
        yield from self.call(st, T("Bound", self.fn_term(cl), o), [v], [], fr, node)
        return
      hit = self.p.find_method(ob.cls, "__setattr__") if ob.cls else None
      if hit is not None and ob.cls in self.hooks.get("construct", ()):
        yield from self.call(st, T("Bound", self.method_fn(ob.cls, "__setattr__"), o), [K(name), v], [], fr, node)
        return
      if hit is not None and ob.cls not in self.hooks.get("plain", ()):
        st.ev("set", self.reify(st, o), name, self.reify(st, v), site)
      if "$open" in ob.fields:
        self.dict_put(st, ob.fields["$open"], K(name), v)
      else:
        self.put(st, o, ob.with_field(name, v))
      yield st, NONE
      return
    c = self.type_of(st, o)
    if c is not None:
      setter = self.p.find_method(c, name + ".setter")
      if setter and self.types.get(o):
        cc, nd = setter
        cl = self.closure(nd, cc.mod, cc.qual, None, f"{cc.qual}.{name}.setter")
        yield from self.call(st, T("Bound", self.fn_term(cl), o), [v], [], fr, node)
        return
    o = self.reify_light(st, o)
    rv = self.reify(st, v)
    st.ev("set", o, name, rv, site)
    st.over[(o, name)] = v if v.op != "Ref" or self.obj(st, v).kind == "inst" else v
    yield st, NONE

  # -------------------------------------------------------------- items
  def abstract_mapping(self, c):
    """Mapping classes of parameters are described by their items, not by their methods, unless the obligation says so."""
    return bool({"Mapping", "MutableMapping"} & set(self.p.mro(c))) and c not in self.hooks.get("concrete", ())

  def getitem(self, st, o, k, fr, node):
    if o.op == "Ref":
      ob = self.obj(st, o)
      if ob.kind == "inst":
        m = self.method_fn(ob.cls, "__getitem__") if ob.cls else None
        if m is not None:
          yield from self.call(st, T("Bound", m, o), [k], [], fr, node)
          return
        if ob.cls is not None and isK(k, int) and "$tuple" in ob.fields:
          yield from self.getitem(st, ob.fields["$tuple"], k, fr, node)
          return
        yield st, T("It", self.reify(st, o), self.reify_light(st, k))
        return
      if ob.kind == "dict":
        yield from self.dict_get(st, o, k, fr, node)
        return
    c = self.types.get(o)
    if c is not None and c in self.p.classes and not self.abstract_mapping(c):
      m = self.method_fn(c, "__getitem__")
      if m is not None and not self.is_opaque(self.clos[m.a[0]].qual):
        yield from self.call(st, T("Bound", m, o), [k], [], fr, node)
        return
    if o.op == "Vars" and o.a[0].op == "Ref":
      ob = self.obj(st, o.a[0])
      if isK(k, str) and kval(k) in ob.fields:
        yield st, ob.fields[kval(k)]
        return
      if "$open" in ob.fields:
        yield from self.getitem(st, ob.fields["$open"], k, fr, node)
        return
    kk = self.reify_light(st, k)
    ov = st.over.get((o, kk))
    if ov is not None and o.op != "Ref":
      yield st, ov
      return
    if k.op == "Ap" and k.a[0] is Ext("slice"):
      k = T("SliceK", *(k.a[1] + (NONE,) if len(k.a[1]) == 2 else k.a[1]))
    if k.op == "SliceK":
      yield st, self.slice(st, o, k)
      return
    e = self.entries(st, o) if o.op in ("Tup", "Ref", "Seq", "Zip", "Enum", "Slice") else None
    if e is not None and isK(k, int):
      i = kval(k)
      if i >= 0:
        pre = 0
        for x in e:
          if x.op in ("X", "LE"):
            break
          if pre == i:
            yield st, x
            return
          pre += 1
        else:
          yield st, Raised(Ext("IndexError"), self.site(node, fr))
          return
        x = e[pre]
        if x.op == "X" and x.a[0] is not o:
          yield st, self.item(x.a[0], K(i - pre))
          return
      else:
        post = 0
        for x in reversed(e):
          if x.op in ("X", "LE"):
            break
          post += 1
          if post == -i:
            yield st, x
            return
        else:
          yield st, Raised(Ext("IndexError"), self.site(node, fr))
          return
        x = e[len(e) - 1 - post]
        if x.op == "X" and x.a[0] is not o:
          yield st, self.item(x.a[0], K(i + post))
          return
    if e is not None and fixed(e) and k.op != "K" and any(x.op == "Ref" for x in e) and o.op != "Zip":
      # one of several containers made here, by a computed position: each position it may be
      left = [st]
      for n, x in enumerate(e):
        after = []
        for s in left:
          if n == len(e) - 1:
            yield s, x
            continue
          for s2, b in self.equal(s, kk, K(n), fr):
            if isinstance(b, Raised):
              yield s2, b
            elif b:
              yield s2, x
            else:
              after.append(s2)
        left = after
      return
    if o.op == "Zip":
      o2 = [self.item(x, kk) for x in o.a]
      yield st, Tup(o2)
      return
    if st.tries and fine_try(st.tries):
      c2 = self.reify_light(st, o)
      for s, b in self.atom(st, T("A.in", kk, c2)):
        if b:
          yield s, self.item(c2, kk)
        else:
          yield s, Raised(Ext("KeyError"), self.site(node, fr))
      return
    yield st, self.item(self.reify(st, o), kk)

  def item(self, o, k):
    if o.op == "Slice" and isK(k, int) and isK(o.a[1], int) and isK(o.a[3]) and kval(o.a[3]) in (None, 1):
      if kval(k) >= 0 and kval(o.a[1]) >= 0:
        return self.item(o.a[0], K(kval(k) + kval(o.a[1])))
    if k.op == "Poly" and len(k.a[0]) == 2 and ((T("Len", o),), 1) in k.a[0]:
      n = next((c for m, c in k.a[0] if m == ()), 0)
      if n < 0:
        return T("It", o, K(n))  # counted from the end
    return T("It", o, k)

  def slice(self, st, o, k):
    lo, hi, step = (self.reify_light(st, x) for x in k.a)
    e = self.entries(st, o) if o.op in ("Tup", "Ref", "Seq") else None
    simple = isK(step) and kval(step) in (None, 1)
    lo0 = kval(lo) if isK(lo) else "?"
    hi0 = kval(hi) if isK(hi) else "?"
    kind = "list" if (o.op == "Ref" and self.obj(st, o).kind in ("list", "iter")) else None

    def wrap(items):
      return self.alloc(st, "list", log=items) if kind else Tup(items)

    if e is not None and simple and lo0 != "?" and hi0 != "?":
      if fixed(e):
        return wrap(e[lo0:hi0])
      pre = 0
      while e[pre].op not in ("X", "LE"):
        pre += 1
      post = 0
      while e[len(e) - 1 - post].op not in ("X", "LE"):
        post += 1
      l = lo0 or 0
      if 0 <= l <= pre and (hi0 is None or (hi0 < 0 and -hi0 <= post)):
        return wrap(e[l : len(e) + hi0 if hi0 is not None else None])
      if 0 <= l <= pre and hi0 is not None and 0 <= hi0 <= pre:
        return wrap(e[l:hi0])
      if l < 0 and -l <= post and hi0 is None:
        return wrap(e[l:])
    if e is None and isK(step) and kval(step) is None and lo0 in (None, 0) and hi0 is None:
      return self.reify(st, o)
    r = self.reify(st, o)
    if lo0 is None:
      lo = K(0)
    if r.op == "Slice" and isK(lo, int) and kval(lo) >= 0 and isK(r.a[1], int) and kval(r.a[1]) >= 0 and hi0 is None and simple and isK(r.a[2]) and kval(r.a[2]) is None:
      return T("Slice", r.a[0], K(kval(lo) + kval(r.a[1])), NONE, NONE)
    if isK(step) and kval(step) == 1:
      step = NONE
    return T("Slice", r, lo, hi, step)

  def dict_get(self, st, o, k, fr, node, default=None):
    ob = self.obj(st, o)
    kk = self.reify_light(st, k)
    for i in range(len(ob.log) - 1, -1, -1):
      e = ob.log[i]
      if e.op == "put":
        if e.a[0] is kk:
          yield st, e.a[1]
          return
        if isK(e.a[0]) and isK(kk):
          continue
        if not (isK(e.a[0]) or isK(kk)) and False:
          continue
        # unknown aliasing
        yield st, default and T("Get", self.reify(st, o), kk, default) or self.item(self.reify(st, o), kk)
        return
      if e.op == "X" and i == 0 or (e.op == "X" and all(x.op == "put" for x in ob.log[i + 1 :])):
        base = self.reify(st, e.a[0])
        rest = ob.log[:i]
        if default is None and not rest:
          if st.tries and fine_try(st.tries):
            for s, b in self.atom(st, T("A.in", kk, base)):
              yield s, (self.item(base, kk) if b else Raised(Ext("KeyError"), self.site(node, fr)))
            return
          yield st, self.item(base, kk)
          return
        if not rest:
          for s, b in self.atom(st, T("A.in", kk, base)):
            yield s, (self.item(base, kk) if b else default)
          return
        for s, b in self.atom(st, T("A.in", kk, base)):
          if b:
            yield s, self.item(base, kk)
          else:
            s2 = s.fork()
            tmp = self.alloc(s2, "dict", log=rest)
            yield from self.dict_get(s2, tmp, k, fr, node, default)
        return
      break
    else:
      if default is not None:
        yield st, default
      else:
        yield st, Raised(Ext("KeyError"), self.site(node, fr))
      return
    r = self.reify(st, o)
    if default is not None:
      for s, b in self.atom(st, T("A.in", kk, r)):
        yield s, self.item(r, kk) if b else default
      return
    if st.tries and fine_try(st.tries):
      for s, b in self.atom(st, T("A.in", kk, r)):
        yield s, (self.item(r, kk) if b else Raised(Ext("KeyError"), self.site(node, fr)))
      return
    yield st, self.item(r, kk)

  def setitem(self, st, o, k, v, fr, node):
    site = self.site(node, fr)
    if o.op == "Ref":
      ob = self.obj(st, o)
      if ob.kind == "dict":
        self.dict_put(st, o, k, v)
        yield st, NONE
        return
      if ob.kind in ("list", "iter"):
        if isK(k, int) and fixed(ob.log) and all(x.op not in ("set!", "carried") for x in ob.log) and -len(ob.log) <= kval(k) < len(ob.log):
          log = list(ob.log)
          log[kval(k)] = v
          self.put(st, o, ob.with_log(tuple(log)))
        else:
          self.log_add(st, o, T("set!", self.reify_light(st, k), v))
        yield st, NONE
        return
      if ob.kind == "inst":
        m = self.method_fn(ob.cls, "__setitem__") if ob.cls else None
        if m is not None:
          yield from self.call(st, T("Bound", m, o), [k, v], [], fr, node)
          return
    c = self.types.get(o)
    if c is not None and c in self.p.classes and not self.abstract_mapping(c):
      m = self.method_fn(c, "__setitem__")
      if m is not None and not self.is_opaque(self.clos[m.a[0]].qual):
        yield from self.call(st, T("Bound", m, o), [k, v], [], fr, node)
        return
    if o.op == "Vars" and o.a[0].op == "Ref" and self.obj(st, o.a[0]).kind == "inst":
      ob = self.obj(st, o.a[0])
      if isK(k, str) and "$open" not in ob.fields:
        self.put(st, o.a[0], ob.with_field(kval(k), v))
        yield st, NONE
        return
      if "$open" not in ob.fields:
        self.open_names(st, o.a[0])
        ob = self.obj(st, o.a[0])
      yield from self.setitem(st, ob.fields["$open"], k, v, fr, node)
      return
    o, k = self.reify(st, o), self.reify_light(st, k)
    st.ev("setitem", o, k, self.reify(st, v), site)
    st.over[(o, k)] = v
    st.over[(o, T("has", k))] = TRUE
    yield st, NONE

  def open_names(self, st, o):
    """The attributes of a new instance become one mapping, to be written under computed names."""
    ob = self.obj(st, o)
    ref = self.alloc(st, "dict")
    self.put(st, ref, self.obj(st, ref).with_log(tuple(T("put", K(k), x) for k, x in ob.fields.items() if not k.startswith("$"))))
    self.put(st, o, Obj(ob.kind, ob.cls, {**{k: x for k, x in ob.fields.items() if k.startswith("$")}, "$open": ref}, ob.log))

  def delitem(self, st, o, k, fr, node):
    if o.op == "Ref" and self.obj(st, o).kind in ("dict", "list"):
      ob = self.obj(st, o)
      kk = self.reify_light(st, k)
      if ob.kind == "dict" and isK(kk) and all(e.op == "put" and isK(e.a[0]) for e in ob.log):
        self.put(st, o, ob.with_log(tuple(e for e in ob.log if e.a[0] is not kk)))
      else:
        self.log_add(st, o, T("del!", kk))
      return
    if o.op == "Vars" and o.a[0].op == "Ref" and isK(k, str):
      ob = self.obj(st, o.a[0])
      f = dict(ob.fields)
      f.pop(kval(k), None)
      self.put(st, o.a[0], Obj("inst", ob.cls, f, ob.log))
      return
    o, k = self.reify(st, o), self.reify_light(st, k)
    st.ev("delitem", o, k, self.site(node, fr))
    st.over.pop((o, k), None)
    st.over[(o, T("has", k))] = FALSE

  # ----------------------------------------------------------- statements
  def ex(self, stmts, st, fr):
    """Runs statements -> (state, signal); signal None | ('ret',v) | ('raise',Raised) | ('brk',) | ('cont',)"""
    if not stmts:
      yield st, None
      return
    for s, sig in self.ex1(stmts[0], st, fr):
      if sig is not None:
        yield s, sig
      else:
        yield from self.ex(stmts[1:], s, fr)

  def ex1(self, n, st, fr):
    m = getattr(self, "ex_" + type(n).__name__, None)
    if m is None:
      st.flag("unmodelled:" + type(n).__name__)
      yield st, None
      return
    yield from m(n, st, fr)

  def ex_Pass(self, n, st, fr):
    yield st, None

  def ex_Expr(self, n, st, fr):
    if isinstance(n.value, ast.Constant):
      yield st, None
      return
    for s, v in self.ev(n.value, st, fr):
      yield s, (("raise", v) if isinstance(v, Raised) else None)

  def ex_Assign(self, n, st, fr):
    for s, v in self.ev(n.value, st, fr):
      if isinstance(v, Raised):
        yield s, ("raise", v)
        continue

      def go(i, s):
        if i == len(n.targets):
          yield s, None
          return
        for s2, sig in self.assign(n.targets[i], v, s, fr):
          if sig is not None:
            yield s2, sig
          else:
            yield from go(i + 1, s2)

      yield from go(0, s)

  def ex_AnnAssign(self, n, st, fr):
    if n.value is None:
      yield st, None
      return
    for s, v in self.ev(n.value, st, fr):
      if isinstance(v, Raised):
        yield s, ("raise", v)
      else:
        yield from self.assign(n.target, v, s, fr)

  def assign(self, t, v, st, fr):
    st = st.fork()
    if isinstance(t, ast.Name):
      self.bind_name(st, t.id, v, fr)
      yield st, None
    elif isinstance(t, ast.Attribute):
      for s, o in self.ev(t.value, st, fr):
        if isinstance(o, Raised):
          yield s, ("raise", o)
          continue
        for s2, r in self.setattr(s, o, t.attr, v, fr, t):
          yield s2, (("raise", r) if isinstance(r, Raised) else None)
    elif isinstance(t, ast.Subscript):
      for s, ok in self.evs([t.value, t.slice], st, fr):
        if isinstance(ok, Raised):
          yield s, ("raise", ok)
          continue
        for s2, r in self.setitem(s, ok[0], ok[1], v, fr, t):
          yield s2, (("raise", r) if isinstance(r, Raised) else None)
    elif isinstance(t, (ast.Tuple, ast.List)):
      yield from self.unpack(t, v, st, fr)
    elif isinstance(t, ast.Starred):
      yield from self.assign(t.value, v, st, fr)
    else:
      st.flag("unmodelled:assign")
      yield st, None

  def unpack(self, t, v, st, fr):
    elts = t.elts
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    pre = star[0] if star else len(elts)
    post = len(elts) - pre - 1 if star else 0
    for st, v in self.to_iter(st, v, fr):
      if isinstance(v, Raised):
        yield st, ("raise", v)
        continue
      e = self.entries(st, v)
      vals = None
      if e is not None and fixed(e):
        if (star and len(e) >= pre + post) or (not star and len(e) == len(elts)):
          vals = e[:pre]
          if star:
            vals.append(self.alloc(st, "list", log=e[pre : len(e) - post]))
            vals += e[len(e) - post :]
        else:
          yield st, ("raise", Raised(Ext("ValueError"), self.site(t, fr)))
          continue
      elif e is not None:
        a = 0
        while a < pre and e[a].op not in ("X", "LE"):
          a += 1
        b = 0
        while b < post and e[len(e) - 1 - b].op not in ("X", "LE"):
          b += 1
        if a == pre and b == post and star:
          vals = e[:pre] + [self.alloc(st, "list", log=e[pre : len(e) - post])] + e[len(e) - post :] if post else e[:pre] + [self.alloc(st, "list", log=e[pre:])]
      if vals is None:
        r = self.reify(st, v)
        if r.op == "Seq" and r.a[0] in ("list",) and len(r.a) == 2 and r.a[1].op == "X":
          r = r.a[1].a[0]
        vals = [self.item(r, K(i)) for i in range(pre)]
        if star:
          sl = T("Slice", r, K(pre), K(-post) if post else NONE, NONE)
          vals.append(self.alloc(st, "list", log=[X(sl)]))
          vals += [self.item(r, K(i - post)) for i in range(post)]

      def go(i, s):
        if i == len(elts):
          yield s, None
          return
        for s2, sig in self.assign(elts[i], vals[i], s, fr):
          if sig is not None:
            yield s2, sig
          else:
            yield from go(i + 1, s2)

      yield from go(0, st)

  def ex_AugAssign(self, n, st, fr):
    load = ast.copy_location(type(n.target)(**{**{f: getattr(n.target, f) for f in n.target._fields}, "ctx": ast.Load()}), n.target)
    for s, a in self.ev(load, st, fr):
      if isinstance(a, Raised):
        yield s, ("raise", a)
        continue
      for s2, b in self.ev(n.value, s, fr):
        if isinstance(b, Raised):
          yield s2, ("raise", b)
          continue
        if a.op == "Ref" and self.obj(s2, a).kind in ("list", "set", "dict") and isinstance(n.op, (ast.Add, ast.BitOr)):
          s2 = s2.fork()
          if self.obj(s2, a).kind == "dict":
            self.dict_update(s2, a, b)
          else:
            self.seq_extend(s2, a, b)
          yield s2, None
          continue
        for s3, v in self.binop(s2, self.OPS[type(n.op)], a, b, fr, n):
          if isinstance(v, Raised):
            yield s3, ("raise", v)
          else:
            yield from self.assign(n.target, v, s3, fr)

  def ex_Return(self, n, st, fr):
    if n.value is None:
      yield st, ("ret", NONE, self.site(n, fr))
      return
    for s, v in self.ev(n.value, st, fr):
      yield s, (("raise", v) if isinstance(v, Raised) else ("ret", v, self.site(n, fr)))

  def ex_If(self, n, st, fr):
    for s, c in self.ev(n.test, st, fr):
      if isinstance(c, Raised):
        yield s, ("raise", c)
        continue
      for s2, b in self.truth(s, c, fr):
        yield from self.ex(n.body if b else n.orelse, s2.fork(), fr)

  def ex_Assert(self, n, st, fr):
    mark = st.trail
    for s, c in self.ev(n.test, st, fr):
      if isinstance(c, Raised):
        yield s, ("raise", c)
        continue
      for s2, b in self.truth(s, c, fr):
        if b:
          yield s2, None
        else:
          yield s2, ("raise", Raised(Ext("AssertionError"), self.site(n, fr)))

  def ex_Raise(self, n, st, fr):
    if n.exc is None:
      cur = st.envs[fr.env].get("$exc")
      yield st, ("raise", cur or Raised(Ext("RuntimeError"), self.site(n, fr)))
      return
    for s, v in self.ev(n.exc, st, fr):
      if isinstance(v, Raised):
        yield s, ("raise", v)
        continue
      yield s, ("raise", Raised(self.exc_class(s, v), self.site(n, fr)))

  def exc_class(self, st, v):
    if v.op == "Ref" and self.obj(st, v).kind == "inst":
      return T("Cls", self.obj(st, v).cls)
    if v.op in ("Cls", "Ext"):
      return v
    if v.op in ("New", "Ap", "Inst"):
      return v.a[0]
    if v.op == "Exc":
      return v.a[0]
    return v

  def ex_Delete(self, n, st, fr):
    def go(i, st):
      if i == len(n.targets):
        yield st, None
        return
      t = n.targets[i]
      st = st.fork()
      if isinstance(t, ast.Name):
        env = dict(st.envs[fr.env])
        env.pop(t.id, None)
        st.envs[fr.env] = env
        yield from go(i + 1, st)
      elif isinstance(t, ast.Attribute):
        for s, o in self.ev(t.value, st, fr):
          if isinstance(o, Raised):
            yield s, ("raise", o)
            continue
          self.delattr(s, o, K(t.attr), fr, t)
          yield from go(i + 1, s)
      elif isinstance(t, ast.Subscript):
        for s, ok in self.evs([t.value, t.slice], st, fr):
          if isinstance(ok, Raised):
            yield s, ("raise", ok)
            continue
          if ok[1] is K(-1) and ok[0].op == "At":
            # the last item of a list: what pop() takes off it
            for s2, f in self.getattr(s, ok[0], "pop", fr, t):
              for s3, r in self.call(s2, f, [], [], fr, t):
                if isinstance(r, Raised):
                  yield s3, ("raise", r)
                else:
                  yield from go(i + 1, s3)
            continue
          self.delitem(s, ok[0], ok[1], fr, t)
          yield from go(i + 1, s)

    yield from go(0, st)

  def delattr(self, st, o, name, fr, node):
    if o.op == "Ref" and self.obj(st, o).kind == "inst" and isK(name):
      ob = self.obj(st, o)
      f = dict(ob.fields)
      f.pop(kval(name), None)
      self.put(st, o, Obj("inst", ob.cls, f, ob.log))
      return
    o = self.reify(st, o)
    st.ev("del", o, self.reify_light(st, name), self.site(node, fr))
    if isK(name):
      st.over.pop((o, kval(name)), None)

  def ex_Import(self, n, st, fr):
    st = st.fork()
    for name, b in self.p.import_bindings(fr.mod, n).items():
      t = self.p.module_term(b[1]) if b[0] == "mod" else self.p.member(b[1], b[2])
      self.bind_name(st, name, self.norm_global(t) if t is not None else T("Unbound", name), fr)
    yield st, None

  ex_ImportFrom = ex_Import

  def ex_FunctionDef(self, n, st, fr):
    st = st.fork()
    for s, f in self.make_closure(n, st, fr, n.name):
      if isinstance(f, Raised):
        yield s, ("raise", f)
        continue

      def deco(i, s, f):
        if i < 0:
          self.bind_name(s, n.name, f, fr)
          yield s, None
          return
        d = n.decorator_list[i]
        for s2, dv in self.ev(d, s, fr):
          if isinstance(dv, Raised):
            yield s2, ("raise", dv)
            continue
          if dv.op == "Ext" and dv.a[0] == "contextlib.contextmanager":
            yield from deco(i - 1, s2, f)
            continue
          for s3, r in self.call(s2, dv, [f], [], fr, d):
            if isinstance(r, Raised):
              yield s3, ("raise", r)
            else:
              yield from deco(i - 1, s3, r)

      yield from deco(len(n.decorator_list) - 1, s, f)

  ex_AsyncFunctionDef = ex_FunctionDef

  def ex_ClassDef(self, n, st, fr):
    st.flag("unmodelled:local class")
    st = st.fork()
    self.bind_name(st, n.name, T("LocalClass", n.name), fr)
    yield st, None

  def ex_Global(self, n, st, fr):
    st = st.fork()
    env = st.envs[fr.env]
    st.envs[fr.env] = {**env, "$decl": {**env.get("$decl", {}), **{x: "global" for x in n.names}}}
    yield st, None

  def ex_Nonlocal(self, n, st, fr):
    st = st.fork()
    env = st.envs[fr.env]
    st.envs[fr.env] = {**env, "$decl": {**env.get("$decl", {}), **{x: "nonlocal" for x in n.names}}}
    yield st, None

  def ex_Break(self, n, st, fr):
    yield st, ("brk",)

  def ex_Continue(self, n, st, fr):
    yield st, ("cont",)

  def ex_Try(self, n, st, fr):
    fine = "all"
    names = []
    for h in n.handlers:
      if h.type is None:
        names.append("Exception")
      else:
        for x in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
          names.append((dotted_of(x) or "?").split(".")[-1])
    if any(x in ("KeyError", "IndexError", "AttributeError", "LookupError", "StopIteration") for x in names):
      fine = "fine"
    st = st.fork()
    old = st.tries
    st.tries = (fine, old)

    def after_body(s, sig):
      s = s.fork()
      s.tries = old
      if sig is None and n.orelse:
        yield from self.ex(n.orelse, s, fr)
        return
      if sig is not None and sig[0] == "raise" and n.handlers:
        yield from handlers(s, sig[1], 0)
        return
      yield s, sig

    def handlers(s, exc, i):
      if i == len(n.handlers):
        yield s, ("raise", exc)
        return
      h = n.handlers[i]
      for m in self.exc_match(s, exc, h, fr):
        s2 = s.fork()
        if m == "yes" or m == "maybe":
          env = s2.envs[fr.env]
          prev = env.get("$exc")
          s2.envs[fr.env] = {**env, "$exc": exc}
          if h.name:
            self.bind_name(s2, h.name, T("Exc", exc.exc), fr)
          if m == "maybe":
            a = T("A.exc", exc.exc, K(ast.unparse(h.type) if h.type else "Exception"))
            if not s2.facts.assume(a, True):
              continue
          yield from self.ex(h.body, s2, fr)
        if m == "no" or m == "maybe":
          s3 = s.fork()
          if m == "maybe":
            a = T("A.exc", exc.exc, K(ast.unparse(h.type) if h.type else "Exception"))
            if not s3.facts.assume(a, False):
              continue
          yield from handlers(s3, exc, i + 1)

    def final(s, sig):
      if not n.finalbody:
        yield s, sig
        return
      for s2, fsig in self.ex(n.finalbody, s, fr):
        yield s2, (fsig if fsig is not None else sig)

    for s, sig in self.ex(n.body, st, fr):
      for s2, sig2 in after_body(s, sig):
        yield from final(s2, sig2)

  def exc_match(self, st, exc, h, fr):
    if h.type is None:
      return ["yes"]
    names = []
    for x in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
      t = self.p.static_expr(fr.mod, x)
      names.append(t.a[0] if t is not None and t.op in ("Ext", "Cls") else "?")
    e = exc.exc
    if "BaseException" in names:
      return ["yes"]
    if "Exception" in names:
      # a call of unknown code may also be left by KeyboardInterrupt and the like
      return ["maybe"] if e.op == "ExcFrom" else ["yes"]
    if e.op in ("Ext", "Cls"):
      sup = set(self.p.mro(e.a[0])) if e.op == "Cls" else exc_supers(e.a[0])
      return ["yes"] if sup & set(names) else ["no"]
    return ["maybe"]

  def ex_With(self, n, st, fr):
    def go(i, st):
      if i == len(n.items):
        yield from self.ex(n.body, st, fr)
        return
      it = n.items[i]
      for s, cm in self.ev(it.context_expr, st, fr):
        if isinstance(cm, Raised):
          yield s, ("raise", cm)
          continue

        def body(s2, val, it=it, i=i):
          if it.optional_vars is not None:
            for s3, sig in self.assign(it.optional_vars, val, s2, fr):
              if sig is not None:
                yield s3, sig
              else:
                yield from go(i + 1, s3)
          else:
            yield from go(i + 1, s2)

        yield from self.with_cm(s, cm, body, fr, it.context_expr)

    st = st.fork()
    yield from go(0, st)

  def with_cm(self, st, cm, body, fr, node):
    def protected(s, val):
      s = s.fork()
      old = s.tries
      s.tries = ("all", old)
      for s2, sig in body(s, val):
        s2 = s2.fork()
        s2.tries = old
        yield s2, sig

    if cm.op == "CM":
      fn, args, kws = cm.a
      c = self.clos[fn.a[0]]
      pend_id = next(self.ids)

      def on_yield(s, v):
        for s2, sig in protected(s, v):
          s2 = s2.fork()
          if sig is not None and sig[0] == "raise":
            s2.envs[pend_id] = {"done": True, "sig": None}
            yield s2, sig[1]
          else:
            s2.envs[pend_id] = {"done": True, "sig": sig}
            yield s2, NONE

      st = st.fork()
      st.envs[pend_id] = {"done": False, "sig": None}
      for s, r in self.inline(st, c, list(args), [tuple(x.a) if isinstance(x, T) else x for x in kws], None, fr, node, on_yield=on_yield):
        pend = s.envs[pend_id]
        if isinstance(r, Raised):
          yield s, ("raise", r)
        else:
          yield s, pend["sig"]
      return
    if cm.op == "Ref" and self.obj(st, cm).kind == "inst":
      o = self.obj(st, cm)
      if o.cls and self.p.find_method(o.cls, "__enter__"):
        for s, v in self.call(st, T("Bound", self.method_fn(o.cls, "__enter__"), cm), [], [], fr, node):
          if isinstance(v, Raised):
            yield s, ("raise", v)
            continue
          for s2, sig in protected(s, v):
            exc = sig is not None and sig[0] == "raise"
            a = [T("ExcType"), T("Exc", sig[1].exc), T("Tb")] if exc else [NONE, NONE, NONE]
            for s3, r in self.call(s2, T("Bound", self.method_fn(o.cls, "__exit__"), cm), a, [], fr, node):
              if isinstance(r, Raised):
                yield s3, ("raise", r)
              elif exc:
                for s4, b in self.truth(s3, r, fr):
                  yield s4, (None if b else sig)
              else:
                yield s3, sig
        return
    if cm.op == "Ap" and cm.a[0].op == "Ext" and cm.a[0].a[0] == "contextlib.suppress":
      for s, sig in protected(st, NONE):
        if sig is not None and sig[0] == "raise":
          s.flag("unmodelled:suppress")
          yield s, None
        else:
          yield s, sig
      return
    if cm.op == "Ap" and cm.a[0].op == "Ext" and cm.a[0].a[0] in ("contextlib.nullcontext",):
      yield from protected(st, cm.a[1][0] if cm.a[1] else NONE)
      return
    if is_lock(cm, self.p):  # mutual exclusion is judged by the lock rule
      yield from protected(st, TRUE)
      return
    r = self.reify(st, cm)
    st = st.fork()
    st.ev("enter", r, self.site(node, fr))
    for s, sig in protected(st, T("CMVal", r)):
      s = s.fork()
      s.ev("exit", r, K("raise" if sig is not None and sig[0] == "raise" else "normal"), self.site(node, fr))
      yield s, sig

  # ---------------------------------------------------------------- loops
  def ex_For(self, n, st, fr):
    n = index_loop(n)
    kl = key_loop(n)
    if kl is not None:
      for s, d in self.ev(n.iter, st, fr):
        if not isinstance(d, Raised) and self.keyed_value(s, d):
          yield from self.ex_For(kl, s, fr)
        else:
          yield from self.for_loop(n, s, fr)
      return
    yield from self.for_loop(n, st, fr)

  def keyed_value(self, st, d):
    """d is a mapping, or an abstract value its own elements index"""
    if d.op == "Ref":
      o = self.obj(st, d)
      if o.kind == "inst" and o.cls and self.p.find_method(o.cls, "__iter__") is None:
        return self.abstract_mapping(o.cls)
      return o.kind == "dict"
    if d.op == "Seq":
      return d.a[0] == "dict"
    c = self.types.get(d)
    if c is not None and c in self.p.classes:
      return self.abstract_mapping(c)
    return self.is_mapping(st, d) or d.op in ("P", "At", "It", "Ap", "RS", "Vars")

  def for_loop(self, n, st, fr):
    for s, it in self.ev(n.iter, st, fr):
      if isinstance(it, Raised):
        yield s, ("raise", it)
        continue

      def body(s2, elem):
        for s3, sig in self.assign(n.target, elem, s2, fr):
          if sig is not None:
            yield s3, sig
          else:
            yield from self.ex(n.body, s3, fr)

      names = assigned_names(n.body) | assigned_names([ast.Assign(targets=[n.target], value=ast.Constant(0))])
      for s2, sig in self.loop(s, it, body, fr, n, names):
        if sig is None:
          yield from self.ex(n.orelse, s2, fr)
        elif sig[0] == "brk":
          yield s2, None
        else:
          yield s2, sig

  def ex_While(self, n, st, fr):
    st = st.fork()
    conv = while_to_for(n)
    if conv is not None:
      var, limit = conv
      cur = None
      try:
        cur = self.lookup(st, var, fr)
      except Exception:
        pass
      if cur is K(0):
        # while i < len(X): ...; i += 1   ==   for i in range(len(X)): ...
        f = ast.For(target=ast.Name(var, ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [limit], []), body=n.body[:-1], orelse=n.orelse)
        ast.copy_location(f, n)
        ast.fix_missing_locations(f)
        yield from self.ex_For(f, st, fr)
        return
    if worklist(n):
      st.flag("worklist")  # what is visited, and in which order, is decided by what earlier visits put there
    names = assigned_names(n.body)
    idx = T("Idx", T("While", K(len(self.active_bases))), len(self.active_bases))

    def elem(s):
      for s2, c in self.ev(n.test, s, fr):
        if isinstance(c, Raised):
          yield s2, None, ("raise", c)
          continue
        for s3, b in self.truth(s2, c, fr):
          if b:
            yield s3, [NONE], None
          else:
            yield s3, None, ("stop",)

    def body(s, e):
      yield from self.ex(n.body, s, fr)

    for s2, sig in self.generic(st, idx, elem, body, fr, n, names):
      if sig is None or sig[0] == "stop":
        yield from self.ex(n.orelse, self.filled(st, s2, idx) or s2, fr)
      elif sig[0] == "brk":
        yield s2, None
      else:
        yield s2, sig

  def loop(self, st, it, body, fr, node, names):
    """Iterates `it`; signals: None exhausted, brk, ret, raise."""
    for st, it in self.to_iter(st, it, fr):
      if isinstance(it, Raised):
        yield st, ("raise", it)
        continue
      e = self.entries(st, it)
      if e is None:
        e = [X(self.reify(st, it))]
      if it.op == "Ref" and self.obj(st, it).kind == "iter":
        st = st.fork()
        self.drain(st, it)
        for s, sig in self.segments(st, e, 0, body, fr, node, names):
          if sig is not None and not (len(e) == 1 and fixed(e)):
            s = s.fork()
            self.put(s, it, self.obj(s, it).with_log((T("carried", it),)))
          yield s, sig
        continue
      yield from self.segments(st, e, 0, body, fr, node, names)

  def drain(self, st, v):
    """An iterator whose items were taken has none left."""
    if v.op == "Ref" and self.obj(st, v).kind == "iter":
      o = self.obj(st, v)
      if o.log:
        self.put(st, v, o.with_log(()))

  def segments(self, st, e, i, body, fr, node, names):
    if i == len(e):
      yield st, None
      return
    h = e[i]
    if h.op == "X":
      base = self.base_of(st, h.a[0])
      depth = sum(1 for b in self.active_bases if b is base)
      idx = T("Idx", base, depth)

      def elem(s, src=h.a[0], idx=idx):
        yield s, [self.element(s, src, idx)], None

      it = self.generic(st, idx, elem, body, fr, node, names, True)
    elif h.op == "LE":
      region, view = h.a[0].v, h.a[1]
      idx = region.idx if region.kind == "loop" else T("Idx", T("FixSeq", h), 0)
      if region.kind == "fix":
        def elem(s, h=h, idx=idx):
          yield s, [T("It", T("Seq", "list", h), idx)], None
      else:
        def elem(s, region=region, view=view):
          for bp in region.paths:
            if bp.exit is not None:
              continue
            s2 = s.fork()
            ok = True
            for a, v in bp.facts:
              if not s2.facts.assume(a, v):
                ok = False
                break
            if not ok:
              continue
            yield s2, list(view_entries(bp, view)), None

      exact = region.kind == "loop" and len(region.paths) == 1 and region.paths[0].exit is None and len(view_entries(region.paths[0], view)) == 1
      it = self.generic(st, idx, elem, body, fr, node, names, exact)
    else:
      it = ((s, None if sig is not None and sig[0] == "cont" else sig) for s, sig in body(st.fork(), h))
    for s, sig in it:
      if sig is None:
        yield from self.segments(s, e, i + 1, body, fr, node, names)
      else:
        yield s, sig

  def base_of(self, st, v):
    o = v.op
    if o == "Zip":
      # sequences of one length: it does not matter which of them is named, as long as it is always the same
      xs = [self.base_of(st, x) for x in v.a if x.op != "Count"]
      if xs:
        return min(xs, key=show) if all(map(plain_base, xs)) else xs[0]
    if o == "Enum":
      return self.base_of(st, v.a[0])
    if o == "Range":
      if v.a[0].op == "Len":
        return self.base_of(st, v.a[0].a[0])
      if v.a[0].op == "At" and v.a[0].a[1] == "ndim":
        return T("At", v.a[0].a[0], "shape")
      return v
    if o in ("ItemsOf", "KeysOf", "ValuesOf"):
      return self.base_of(st, v.a[0])
    if o == "Sorted":
      k = self.sort_key_kind(v)
      if k is not None:
        return T("SortedBase", self.base_of(st, v.a[0]), k)
      return self.reify(st, v)
    if o == "Rev":
      return T("Rev", self.base_of(st, v.a[0]))
    return frozen_list(self.reify(st, v))

  def sort_key_kind(self, v):
    """Sorted(x, key, reverse): canonical name of the order when it is the natural one of the keys."""
    x, key, rev = v.a
    r = "" if rev is FALSE else "-" if rev is TRUE else None
    if r is None:
      return None
    if isK(key) and kval(key) is None:
      return K("key" + r) if x.op in ("ItemsOf", "KeysOf", "Vars", "P", "At", "It", "Ap", "RS") else None
    if key.op == "KeyFirst":
      return K("key" + r) if x.op == "ItemsOf" else K("first" + r)
    if key.op == "KeyIdent":
      return K("key" + r)
    return None

  def element(self, st, v, idx):
    o = v.op
    if o == "Zip":
      return Tup(self.element(st, x, idx) for x in v.a)
    if o == "Count":
      return idx if v.a[0] is K(0) else add(idx, v.a[0])
    if o == "Enum":
      x = v.a[0]  # counted backwards the number of an item is not its place
      return Tup([add(idx, v.a[1]), T("It", self.reify(st, x), idx) if x.op == "Rev" and x.a[0].op != "Range" else self.element(st, x, idx)])
    if o == "Range":
      return add(idx, v.a[1]) if len(v.a) > 1 else idx
    if o in ("ItemsOf", "KeysOf", "ValuesOf"):
      m = v.a[0]
      while m.op == "Sorted" and m.a[0].op == "ItemsOf":  # a mapping in another order has the same items
        m = m.a[0].a[0]
      if m.op == "Sorted" and m.a[1].op == "KeyFirst" and idx.a[0].op == "SortedBase":  # a mapping made of sorted pairs
        x = self.element(st, m.a[0], idx)
        k, x = x.a if x.op == "Tup" else (T("It", x, K(0)), T("It", x, K(1)))
        return k if o == "KeysOf" else x if o == "ValuesOf" else Tup([k, x])
      k = T("Key", m, idx)
      return k if o == "KeysOf" else self.item(m, k) if o == "ValuesOf" else Tup([k, self.item(m, k)])
    if o == "Sorted":
      if self.sort_key_kind(v) is not None and self.ordered_as(st, v, idx):
        return self.element(st, v.a[0], idx)
      return T("It", self.reify(st, v), idx)
    if o == "Rev":
      if self.ordered_as(st, v, idx):
        return self.element(st, v.a[0], idx)
      return T("It", self.reify(st, v), idx)
    if o == "Vars" or (self.is_mapping(st, v)):
      return T("Key", self.reify(st, v), idx)
    r = frozen_list(self.reify(st, v))
    ov = st.over.get((r, idx))
    return ov if ov is not None else self.item(r, idx)

  def ordered_as(self, st, v, idx):
    """The loop at idx goes through things in the order of v, rather than in that of another sequence beside it."""
    return any(y is idx.a[0] for y in (self.base_of(st, v), T("SortedBase", v.a[0], K("key"))))

  def is_mapping(self, st, v):
    c = self.type_of(st, v)
    if c is not None and (c == "dict" or "Mapping" in self.p.mro(c)):
      return True
    if v.op == "At" and c is None:
      own = self.type_of(st, v.a[0])
      if own in self.p.classes and v.a[1] in self.p.mapping_fields(own):
        return True
    q = st.facts.get(T("A.isinst", v, Ext("Mapping"))) or st.facts.get(T("A.isinst", v, Ext("dict")))
    return q is True or v in self.hooks.get("mappings", ())

  def names_carried(self, key, idx):
    """Whether a written place is named through what an earlier pass of the loop at idx carried over."""
    return any(isinstance(k, T) and any((x.op in ("Phi", "FixRes") or x.op in ("Carry", "CarryAt", "carried") and x.a[0] is idx) for x in walk(k)) for k in key)

  def generic(self, st, idx, elem, body, fr, node, names, exact=False):
    """One generic iteration, summarised as a region."""
    if len(self.active_bases) > 24:
      raise Unsupported("loop nesting")
    self.active_bases.append(idx.a[0])
    try:
      pre = st
      mutated, overk, fields = set(), set(), set()
      firsts, never = {}, set()  # variables that only tell the first iteration from the others: what they are afterwards
      carried_vars = {}
      for _pass in range(6):
        s0 = pre.fork()
        carried_vars = {}
        carriers = []
        n = 0
        for nm in sorted(names):
          e = self.find_env(s0, nm, fr)
          if e is not None:
            init = s0.envs[e][nm]
            try:
              rinit = self.reify(s0, init) if init.op != "Fn" else K(nm)
            except RecursionError:
              rinit = K(nm)
            if init.op == "Ref":
              continue
            if nm in firsts:
              continue
            uid = next(self.ids)
            carriers.append((uid, ("var", nm)))
            c = T("Carry", idx, rinit, sum(1 for x in carried_vars.values() if x[2].a[1] is rinit), K(uid))
            carried_vars[nm] = (e, init, c)
            s0.envs[e] = {**s0.envs[e], nm: c}
        carried_fields = {}
        for oid, name in sorted(fields):
          o = s0.heap[oid]
          if name not in o.fields:
            raise Unsupported("a field first set in a loop")
          rinit = self.reify(s0, o.fields[name])
          nm = f"${oid}.{name}"
          uid = next(self.ids)
          carriers.append((uid, ("var", nm)))
          c = T("Carry", idx, rinit, sum(1 for x in [*carried_vars.values(), *carried_fields.values()] if x[2].a[1] is rinit), K(uid))
          carried_fields[nm] = ((oid, name), o.fields[name], c)
          s0.heap[oid] = o.with_field(name, c)
        for oid in mutated:
          o = s0.heap[oid]
          if o.kind != "inst":
            uid = next(self.ids)
            carriers.append((uid, oid))
            s0.heap[oid] = o.with_log(o.log + (T("carried", idx, K(uid)),))
        for k in overk:
          old = s0.over.get(k)
          s0.over[k] = T("CarryAt", idx, k[0], K(k[1]) if isinstance(k[1], str) else k[1])
          if isinstance(k[1], T) and k[1].op == "has":
            del s0.over[k]
        results = []
        starts = [s0]
        if firsts:
          starts = []
          for s, first in self.cmp_int(s0, idx, 0, 0):
            if not first:
              for nm, v in firsts.items():
                e = self.find_env(s, nm, fr)
                s.envs[e] = {**s.envs[e], nm: v}
            starts.append(s)
        for s1, es, sig in (x for s in starts for x in elem(s)):
          if sig is not None:
            results.append((s1, sig))
            continue

          def chain(s, i, es=es):
            if i == len(es):
              yield s, None
              return
            for s2, sg in body(s, es[i]):
              if sg is not None and sg[0] == "cont":
                sg = None
              if sg is None:
                yield from chain(s2, i + 1)
              else:
                yield s2, sg

          results.extend(chain(s1, 0))
          if len(results) > self.max_paths:
            raise Budget("loop paths")
        # what this pass changed is carried over the next one, until nothing new is changed: a container that
        # the first iteration leaves alone may be changed by a later one
        before = (len(mutated), len(overk), len(fields))
        turned = False
        if exact and idx.op == "Idx":
          for nm in [*carried_vars, *firsts]:
            if nm in never:
              continue
            e = self.find_env(s0, nm, fr)
            init = pre.envs[e].get(nm)
            c = carried_vars[nm][2] if nm in carried_vars else None
            vals = set()
            for s, sig in results:
              x = s.envs[e].get(nm)
              if sig is None and not (x is c and init.op == "K" and (s.facts.query(T("A.truth", c)) is (not kval(init)) or s.facts.query(T("A.is", c, init)) is False)):
                vals.add(x)
            v = next(iter(vals)) if len(vals) == 1 else None
            if v is not None and v.op == "K" and init is not None and init.op == "K" and init is not v:
              if firsts.get(nm) is not v:
                firsts[nm] = v
                turned = True
            elif nm in firsts:
              del firsts[nm]
              never.add(nm)
              turned = True
        opened = False
        for s, sig in results:
          if opened:
            break
          for oid, o in s.heap.items():
            if oid in pre.heap and pre.heap[oid] is not o:
              if o.kind == "inst":
                p0 = pre.heap[oid]
                if "$open" in o.fields and "$open" not in p0.fields:
                  pre = pre.fork()
                  self.open_names(pre, T("Ref", oid))
                  opened = True
                  break
                for k in {*o.fields, *p0.fields}:
                  if o.fields.get(k) is not p0.fields.get(k):
                    if k not in o.fields:
                      raise Unsupported("a field deleted in a loop")
                    fields.add((oid, k))
                continue
              if oid not in mutated or o is not s0.heap[oid]:
                mutated.add(oid)
          for k, v in s.over.items():
            if pre.over.get(k) is not v and (_pass == 0 or not self.names_carried(k, idx)):
              overk.add(k)
        if not opened and not turned and (len(mutated), len(overk), len(fields)) == before:
          break
      else:
        raise Unsupported("loop state keeps growing")
      region = Region("loop", idx)
      region.site = self.site(node, fr) if node is not None else None
      for uid, view in carriers:
        self.carriers[uid] = (region, view)
      exits = []
      base_facts = pre.facts
      for s, sig in results:
        facts = tuple((a, v) for a, v in s.facts.items() if base_facts.get(a) is not v and base_facts.get(a) != v)
        views = {}
        for oid in mutated:
          o, p0 = s.heap[oid], s0_log(pre, oid)
          new = o.log[len(p0) + 1 :] if len(o.log) >= len(p0) + 1 and o.log[: len(p0)] == p0 else None
          if new is None:
            new = (T("rewrite", *[self.reify(s, x) for x in o.log]),)
          views[oid] = tuple(self.reify(s, x) for x in new)
        for key, ents in self.event_views(events_of(s.trail, pre.trail)).items():
          views[("ev", key)] = ents
        views["events"] = tuple(events_of(s.trail, pre.trail))
        for nm, (e, init, c) in carried_vars.items():
          views[("var", nm)] = (self.reify(s, s.envs[e].get(nm, c)),)
        for nm, ((oid, name), init, c) in carried_fields.items():
          views[("var", nm)] = (self.reify(s, s.heap[oid].fields[name]),)
        for nm, v in firsts.items():
          views[("var", nm)] = (v,)
        bp = BodyPath(facts, views, sig)
        if sig is not None:
          exits.append((s, sig, facts))
        region.paths.append(bp)
      cont = [bp for bp in region.paths if bp.exit is None]
      # a path that leaves the loop carries the earlier (non leaving) iterations with it
      ex_atom = None
      if exits and not all(sig[0] == "stop" for _, sig, _ in exits):
        ex_atom = self.exists_atom(idx, [f for _, sig, f in exits if sig[0] != "stop"])

      def base_state(source, after):
        s = source.fork()
        prior = {}
        for oid in mutated:
          o = s.heap[oid]
          p0 = s0_log(pre, oid)
          le = T("LE", Box(region), oid)
          has = any(bp.view(oid) for bp in cont)
          if after:
            s.heap[oid] = pre.heap[oid].with_log(p0 + ((le,) if has else ()))
          else:
            rest = o.log[len(p0) + 1 :] if o.log[: len(p0)] == p0 else o.log
            s.heap[oid] = o.with_log(p0 + ((le,) if has else ()) + tuple(rest))
        return s

      has_events = any(any(k[0] == "ev" for k in bp.views if isinstance(k, tuple)) for bp in cont)
      # exhausted
      infinite = idx.a[0].op == "While"
      done = pre.fork()
      for oid in set(k for r in results for k in r[0].heap if k not in pre.heap) if False else ():
        pass
      done = base_state(pre, True)
      if has_events:
        done.ev("region", region, region.site)
      for f in {f for s, _ in results for f in s.flags}:
        done.flag(f)
      for nm in firsts:
        e = self.find_env(done, nm, fr)
        done.envs[e] = {**done.envs[e], nm: T("Phi", Box(region), done.envs[e][nm], nm, idx)}
      for nm in names:
        cv = carried_vars.get(nm)
        vals = [(bp.facts, bp.views[("var", nm)][0]) for bp in cont] if cv else []
        if cv:
          e, init, c = cv
          if all(v is c for _, v in vals):
            continue
          acc = self.accumulate(done, init, c, region, nm, cont)
          if acc is None:
            acc = T("Phi", Box(region), self.reify(done, init), nm, idx)
          done.envs[e] = {**done.envs[e], nm: acc}
        elif nm != "$" and self.find_env(done, nm, fr) is None and names:
          # defined only inside the loop
          vals = []
          for s, sig in results:
            e2 = self.find_env(s, nm, fr)
            if sig is None and e2 is not None:
              vals.append(self.reify(s, s.envs[e2][nm]) if s.envs[e2][nm].op != "Fn" else T("LoopFn", nm))
          if vals:
            done.envs[fr.env] = {**done.envs[fr.env], nm: T("Last", idx, vals[0] if len(set(vals)) == 1 else T("Alt", *sorted(set(vals), key=show)))}
      for nm, ((oid, name), init, c) in carried_fields.items():
        if all(bp.views[("var", nm)][0] is c for bp in cont):
          continue
        acc = self.accumulate(done, init, c, region, nm, cont)
        if acc is None:
          acc = T("Phi", Box(region), self.reify(done, init), nm, idx)
        done.heap[oid] = done.heap[oid].with_field(name, acc)
      for k in overk:
        vs = {r[0].over.get(k) for r in results if r[1] is None}
        if isinstance(k[1], T) and k[1].op == "has":
          done.over.pop(k, None)
          continue
        done.over[k] = T("PhiAt", Box(region), k[0], K(k[1]) if isinstance(k[1], str) else k[1])
      if infinite:
        for s, sig, facts in exits:
          if sig[0] == "stop":
            d2 = done.fork()
            # facts about carried values do not survive into the summary
            yield d2, None
            break
      else:
        ok = True
        if ex_atom is not None:
          if isinstance(ex_atom, bool):
            ok = not ex_atom
          else:
            ok = done.facts.assume(ex_atom, False)
            done.order = done.order + ((ex_atom, False),)
        if ok and (cont or ex_atom is not None or not results):
          yield done, None
        elif ok and not cont and exits:
          yield done, None  # zero iterations
      for s, sig, facts in exits:
        if sig[0] == "stop":
          continue
        s2 = base_state(s, False)
        if has_events:
          ev = events_of(s.trail, pre.trail)
          s2.trail = pre.trail
          s2.ev("region", region, region.site)
          for e in ev:
            s2.ev(*e)
        if isinstance(ex_atom, T):
          if not s2.facts.assume(ex_atom, True):
            continue
        yield s2, sig
    finally:
      self.active_bases.pop()

  def find_env(self, st, nm, fr):
    e = fr.env
    while e is not None:
      if nm in st.envs[e]:
        return e
      e = st.envs[e].get("$parent")
    return None

  def accumulate(self, st, init, c, region, nm, cont):
    """x = x + (...) in a loop is a sequence built by the loop."""
    items = {}
    for bp in cont:
      v = bp.views[("var", nm)][0]
      if v is c:
        items[id(bp)] = ()
      elif v.op == "Tup" and v.a and v.a[0] is X(c) and not any(x is X(c) for x in v.a[1:]):
        items[id(bp)] = v.a[1:]
      elif v.op == "Seq" and v.a[0] == "list" and len(v.a) > 1 and v.a[1] is X(c):
        items[id(bp)] = v.a[2:]
      else:
        return None
    for bp in cont:
      bp.views[("acc", nm)] = tuple(items[id(bp)])
    e = self.entries(st, init)
    if e is None:
      return None
    le = T("LE", Box(region), ("acc", nm))
    if init.op in ("Tup",) or (init.op == "K"):
      return Tup(list(e) + [le])
    return None

  def event_views(self, events):
    """Groups effects by the object they act on."""
    out = {}

    def put(k, e):
      out.setdefault(k, []).append(e)

    for e in events:
      k = e[0]
      if k == "set":
        put(e[1], T("set", e[2] if isinstance(e[2], T) else K(e[2]), e[3]))
      elif k == "setitem":
        put(e[1], T("put", e[2], e[3]))
      elif k == "upd":
        put(e[1], e[2])
      elif k == "del":
        put(e[1], T("delattr", e[2]))
      elif k == "delitem":
        put(e[1], T("delitem", e[2]))
      elif k == "call" and e[3] in ("E",):
        for r in roots(e[1]) or [T("Ext", "world")]:
          put(r, e[1])
      elif k == "enter":
        put(e[1], T("enter"))
      elif k == "exit":
        put(e[1], T("exit", e[2]))
      elif k == "rec":
        put(T("Ext", "rec"), e[1])
      elif k == "hof":
        put(T("Ext", "hof:" + e[1]), e[2])
      elif k == "region":
        keys = []
        for bp in e[1].paths:
          for kk in bp.views:
            if isinstance(kk, tuple) and kk[0] == "ev" and kk[1] not in keys:
              keys.append(kk[1])
        for kk in keys:
          put(kk, T("LE", Box(e[1]), ("ev", kk)))
    return {k: tuple(v) for k, v in out.items()}

  def exists_atom(self, idx, dnf):
    """Atom: some iteration satisfies the disjunction (canonical truth table over its atoms)."""
    dnf = [[(a, v) for a, v in c] for c in dnf]
    atoms = sorted({a for c in dnf for a, v in c if not isinstance(v, tuple)}, key=show)
    rngs = any(isinstance(v, tuple) for c in dnf for a, v in c)
    if any(not c for c in dnf):
      return T("A.nonempty", idx.a[0]) if True else True
    if len(atoms) > 8 or rngs:
      key = tuple(sorted((tuple(sorted(c, key=lambda av: (show(av[0]), str(av[1])))) for c in dnf), key=show))
      return T("A.ex", idx, K("dnf"), key)
    import itertools as it

    def table(ats):
      out = []
      for bits in it.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, bits))
        out.append(any(all(env[a] is v for a, v in c) for c in dnf))
      return out

    tab = table(atoms)
    # drop atoms the table does not depend on
    i = 0
    while i < len(atoms):
      stride = 1 << (len(atoms) - 1 - i)
      dep = any(tab[j] != tab[j ^ stride] for j in range(len(tab)))
      if dep:
        i += 1
        continue
      tab = [tab[j] for j in range(len(tab)) if not j & stride]
      atoms = atoms[:i] + atoms[i + 1 :]
    bits = "".join("1" if x else "0" for x in tab)
    return T("A.ex", idx, K(bits), tuple(atoms))

  # ----------------------------------------------------------------- calls
  def call(self, st, f, args, kws, fr, node):
    op = f.op
    if f is Ext("jax.tree_util.tree_unflatten") and len(args) == 2 and not kws and not any(a.op in ("X", "LE") for a in args):
      yield from self.call(st, T("At", self.reify(st, args[0]), "unflatten"), args[1:], [], fr, node)
      return
    if op == "Fn":
      c = self.clos[f.a[0]]
      if c.ctxmgr:
        yield st, T("CM", f, tuple(args), tuple(kws))
        return
      if self.is_opaque(c.qual) or c.qual in self.hooks.get("opaque_rec", ()) and any(x is c.node for x, *_ in fr.stack):
        if c.qual in PREDICATES and len(args) == 1 and not kws:
          x = args[0]
          if x.op == "Ap" and x.a[0] == T("Ext", "repo:" + c.qual):  # a predicate is its own predicate
            yield st, x
            return
          if x.op in ("Fn", "Bound", "Partial", "Cls") or x == K(...) or x == K(None) or x.op == "Ref" and self.callable_object(st, x):
            yield from self.inline(st, c, args, kws, None, fr, node)
            return
        yield from self.opaque_call(st, T("Ext", "repo:" + c.qual), *self.bind_opaque(st, c, args, kws, False), fr, node, "P" if c.qual in self.hooks.get("pure", ()) else OPAQUE.get(c.qual, "R"))
        return
      yield from self.inline(st, c, args, kws, None, fr, node)
      return
    if op == "Bound":
      c = self.clos[f.a[0].a[0]]
      if c.ctxmgr:
        yield st, T("CM", f.a[0], (f.a[1],) + tuple(args), tuple(kws))
        return
      nm = c.qual.split(".")[-1]
      if self.is_opaque(c.qual):
        a, k = self.bind_opaque(st, c, args, kws, True)
        for s, r in self.opaque_call(st, T("At", self.reify(st, f.a[1]), nm), a, k, fr, node, OPAQUE.get(c.qual) or API.get(nm, "E")):
          if not isinstance(r, Raised) and RESULTS.get(c.qual) in self.p.classes:
            self.types.setdefault(r, RESULTS[c.qual])
          yield s, r
        return
      yield from self.inline(st, c, args, kws, f.a[1], fr, node)
      return
    if op == "Partial":
      fn, pa, pk = f.a
      kw = dict((k.a[0], k.a[1]) for k in pk)
      yield from self.call(st, fn, list(pa) + list(args), merge_kw(kw, kws), fr, node)
      return
    if op == "Cls":
      yield from self.instantiate(st, f, args, kws, fr, node)
      return
    if op == "BM":
      yield from builtins_model.method(self, st, f.a[0], f.a[1], args, kws, fr, node)
      return
    if op == "Ext":
      yield from builtins_model.call_ext(self, st, f.a[0], args, kws, fr, node)
      return
    if op == "Hof":
      yield from builtins_model.call_hof(self, st, f, args, kws, fr, node)
      return
    if op == "Ref":
      o = self.obj(st, f)
      if o.kind == "inst" and o.cls:
        m = self.method_fn(o.cls, "__call__")
        if m is not None:
          yield from self.call(st, T("Bound", m, f), args, kws, fr, node)
          return
    if op == "GFn":
      yield from self.call(st, self.global_fn(*f.a), args, kws, fr, node)
      return
    if op == "At" and f.a[1] in ("acquire", "release") and is_lock(f.a[0], self.p):
      yield st, TRUE if f.a[1] == "acquire" else NONE
      return
    c = self.types.get(f)
    if c is not None:
      m = self.method_fn(c, "__call__")
      if m is not None and not self.is_opaque(self.clos[m.a[0]].qual):
        yield from self.call(st, T("Bound", m, f), args, kws, fr, node)
        return
    if op == "Type":
      yield from self.opaque_call(st, f, args, kws, fr, node, "R", new=True)
      return
    cls = "E"
    if op == "Ap" and show(f.a[0]) in self.hooks.get("pure_results", ()):
      cls = "P"
    if op == "At":
      nm = f.a[1]
      cls = API.get(nm, "E")
      recv = f.a[0]
      if recv.op == "SuperOf" and nm == "__call__" and recv.a[0].op == "Cls" and recv.a[0].a[0] in self.p.classes:
        yield from self.instantiate(st, recv.a[0], args, kws, fr, node, raw=True)
        return
      if recv.op == "Cls" and nm == "__new__" and args and args[0] is recv and recv.a[0] in self.p.classes:
        yield st, self.alloc(st, "inst", recv.a[0])
        return
      if recv.op == "SuperOf" and nm in ("__call__", "__getattribute__"):
        cls = "R"
      if nm == "partition" and self.recv_class(st, recv) == "Context":
        cls = "E"
      if nm == "merge" and recv is T("Cls", "nnx.state.State"):
        cls = "R"
      if nm == "get" and self.recv_class(st, recv) in (None, "dict") and (args) and recv.op in ("P", "At", "It", "Ap", "RS") and len(args) <= 2 and not kws:
        # mapping.get(k, d)
        d = args[1] if len(args) > 1 else NONE
        kk = self.reify_light(st, args[0])
        for s, b in self.atom(st, T("A.in", kk, recv)):
          yield s, self.item(recv, kk) if b else d
        return
      if nm in ("items", "keys", "values") and not args and not kws:
        yield st, T({"items": "ItemsOf", "keys": "KeysOf", "values": "ValuesOf"}[nm], recv)
        return
      if nm == "copy" and not args and not kws and self.types.get(recv) in ("dict", "list"):
        ref = self.alloc(st, self.types[recv])
        self.put(st, ref, self.obj(st, ref).with_log((X(recv),)))
        yield st, ref
        return
      cc = self.p.unique_method(nm)
      if cc is not None and kws:
        args, kws = self.bind_positional(cc.methods[nm], args, kws)
    made, parts = None, ()
    if op == "At":
      c = self.type_of(st, f.a[0])
      hit = self.p.find_method(c, f.a[1]) if c in self.p.classes else None
      if hit is not None:
        q = f"{hit[0].qual}.{f.a[1]}"
        cls = OPAQUE.get(q, cls)
        made = RESULTS.get(q)
        parts = mapping_parts(hit[1], hit[0].mod)
    for s, r in self.opaque_call(st, f, args, kws, fr, node, cls):
      if made in self.p.classes and not isinstance(r, Raised):
        self.types.setdefault(r, made)
      for n in parts if not isinstance(r, Raised) else ():
        self.types.setdefault(T("It", r, K(n)), "dict")
      yield s, r

  def recv_class(self, st, recv):
    c = self.type_of(st, recv)
    return c.split(".")[-1] if c else None

  def bind_positional(self, fnode, args, kws):
    """keyword arguments of a known method -> positional where the signature says so"""
    a = fnode.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    kw = dict((k, v) for k, v in kws if k is not None)
    if any(k is None for k, _ in kws) or any(x.op == "X" for x in args):
      return args, kws
    args = list(args)
    while len(args) < len(names) and names[len(args)] in kw:
      args.append(kw.pop(names[len(args)]))
    return args, [(k, v) for k, v in kws if k in kw]

  def bind_opaque(self, st, c, args, kws, has_self):
    """Normalises the arguments of an opaque repository function to parameter order."""
    a = c.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if has_self:
      names = names[1:]
    if any(k is None for k, _ in kws) or any(x.op == "X" for x in args):
      return args, kws
    kw = dict(kws)
    args = list(args)
    while len(args) < len(names) and names[len(args)] in kw:
      args.append(kw.pop(names[len(args)]))
    # keywords after a gap stay keywords
    return args, [(k, v) for k, v in kws if k in kw]

  def first_named(self, x):
    """The name instances of x's class get their first argument by"""
    c = self.types.get(x)
    m = self.p.metaclass_of(c) if c in self.p.classes else None
    found = self.p.find_method(m.a[0], "__call__") if m is not None and m.op == "Cls" else None
    if not found or len(found[1].args.args) != 2 or found[1].args.posonlyargs or found[1].args.vararg:
      return None
    return K(found[1].args.args[1].arg)

  def opaque_call(self, st, f, args, kws, fr, node, cls, new=False):
    f = self.reify(st, f)
    ra = tuple(self.reify(st, a) for a in args)
    if f.op == "Type" and len(ra) == 1 and len(kws) == 1 and kws[0][0] is None:
      rest = self.reify(st, kws[0][1])
      if rest.op == "Without" and ra[0] is T("It", rest.a[0], rest.a[1]) and rest.a[1] == self.first_named(f.a[0]):
        ra, kws = (), [(None, rest.a[0])]
    if f.op == "Ext":
      n = signatures.normal(f.a[0], ra, [(k, self.reify(st, v)) for k, v in kws])
      if n is not None:
        ra, kws = tuple(n[0]), n[1]
      if f.a[0] == "jax.tree_util.tree_map" and len(ra) > 1 and not any(x.op in ("X", "LE") for x in ra):
        ra = (builtins_model.called_with(ra[0], len(ra) - 1),) + ra[1:]
    rk = tuple(sorted(((k if k is not None else "**", self.reify(st, v)) for k, v in kws), key=lambda kv: (kv[0], show(kv[1]) if kv[0] == "**" else "")))
    site = self.site(node, fr) if node is not None else (fr.mod.rel, fr.qual, 0)
    if f.op == "Type" and new:
      t = T("New", f, ra, rk)
      st = st.fork()
      st.ev("new", t, site)
      yield st, t
      return
    self.seen_calls.add((site, show(f)[:80]))
    epoch = 0
    st = st.fork()
    evs = events_of(st.trail)
    if cls == "R" or cls == "F":
      rts = set(roots(T("Ap", f, ra, rk, 0)))
      epoch = sum(1 for e in evs if (e[0] == "call" and e[3] == "E" and rts & set(roots(e[1]))) or (e[0] in ("set", "setitem", "del", "delitem", "upd") and rts & {root_of(e[1])}))
    if cls in ("E", "F"):
      base = T("Ap", f, ra, rk, epoch)
      occ = sum(1 for e in evs if e[0] == "call" and e[3] == cls and e[1].a[:3] == base.a[:3])
      if cls == "F":
        epoch = epoch * 100 + occ
      else:
        epoch = occ
    t = T("Ap", f, ra, rk, epoch)
    if st.tries and cls in ("E", "R", "F"):
      a = T("A.raises", t)
      s2 = st.fork()
      if s2.facts.assume(a, True):
        s2.ev("call", t, site, cls)
        s2.order = s2.order + ((a, True),)
        yield s2, Raised(T("ExcFrom", t), site)
      if not st.facts.assume(a, False):
        return
    st.ev("call", t, site, cls)
    if f.op == "Ext" and f.a[0][5:] in RESULTS and RESULTS[f.a[0][5:]] in self.p.classes:
      self.types.setdefault(t, RESULTS[f.a[0][5:]])
    yield st, t

  def instantiate(self, st, f, args, kws, fr, node, raw=False):
    q = f.a[0]
    if q not in self.p.classes or q in self.opaque:
      if q in self.p.classes:
        init = self.p.find_method(q, "__init__")
        if init is not None:
          a, k = self.bind_positional(init[1], args, kws)
          args, kws = a, k
      yield from self.new_term(st, f, args, kws, fr, node)
      return
    c = self.p.classes[q]
    mc = self.p.metaclass_of(q)
    if not raw and mc is not None and mc.op == "Cls" and self.p.find_method(mc.a[0], "__call__"):
      if q in self.hooks.get("construct", ()):
        yield from self.call(st, T("Bound", self.method_fn(mc.a[0], "__call__"), f), args, kws, fr, node)
        return
      yield from self.new_term(st, f, args, kws, fr, node)
      return
    mro = self.p.mro(q)
    if any(x in ("Exception", "BaseException") or x.endswith("Error") for x in mro) or self.is_enum(q):
      yield from self.new_term(st, f, args, kws, fr, node)
      return
    init = self.p.find_method(q, "__init__")
    st = st.fork()
    if init is not None:
      ref = self.alloc(st, "inst", q)
      for s, r in self.inline(st, self.clos[self.method_fn(q, "__init__").a[0]], args, kws, ref, fr, node):
        yield s, (r if isinstance(r, Raised) else ref)
      return
    if self.p.is_dataclass(c):
      fields = self.p.dataclass_fields(q)
      names = list(fields)
      vals = {}
      if any(x.op == "X" for x in args) or any(k is None for k, _ in kws):
        yield from self.new_term(st, f, args, kws, fr, node)
        return
      for n, v in zip(names, args):
        vals[n] = v
      for k, v in kws:
        vals[k] = v
      ref = self.alloc(st, "inst", q)
      pend = [n for n in names if n not in vals]

      def dflt(s, i):
        if i == len(pend):
          yield s
          return
        cc, d = fields[pend[i]]
        if d is None:
          yield from dflt(s, i + 1)
          return
        f2 = Frame(env=next(self.ids), mod=cc.mod, cls=None, qual=cc.qual, stack=fr.stack, depth=fr.depth, node=None)
        s.envs[f2.env] = {"$parent": None}
        for s2, v in self.ev(d, s, f2):
          vals[pend[i]] = v
          yield from dflt(s2, i + 1)

      for s in dflt(st, 0):
        o = self.obj(s, ref)
        self.put(s, ref, Obj("inst", q, {**vals}, ()))
        post = self.p.find_method(q, "__post_init__")
        if post is not None:
          for s2, r in self.inline(s, self.clos[self.method_fn(q, "__post_init__").a[0]], [], [], ref, fr, node):
            yield s2, (r if isinstance(r, Raised) else ref)
        else:
          yield s, ref
      return
    if not args and not kws and not (set(mro) & {"tuple", "dict", "list"}) and self.p.find_method(q, "__new__") is None:
      yield st, self.alloc(st, "inst", q)
      return
    if "tuple" in mro and len(args) == 1 and not kws and self.p.find_method(q, "__new__") is None:
      for s, v in self.to_iter(st, args[0], fr):
        if isinstance(v, Raised):
          yield s, v
          continue
        e = self.entries(s, v)
        val = Tup(e) if e is not None else Tup([X(self.reify(s, v))])
        s = s.fork()
        self.drain(s, v)
        yield s, self.alloc(s, "inst", q, {"$tuple": val})
      return
    yield from self.new_term(st, f, args, kws, fr, node)

  def new_term(self, st, f, args, kws, fr, node):
    ra = tuple(self.reify(st, a) for a in args)
    rk = tuple(sorted(((k if k is not None else "**", self.reify(st, v)) for k, v in kws), key=lambda kv: (kv[0], show(kv[1]) if kv[0] == "**" else "")))
    st = st.fork()
    t = T("New", f, ra, rk)
    st.ev("new", t, self.site(node, fr) if node is not None else (fr.mod.rel, fr.qual, 0))
    yield st, t

  # --------------------------------------------------------------- inlining
  def defaults_of(self, c):
    if c.defaults is None:
      # module level function: defaults evaluated in the module
      vals, kvals = [], []
      m = c.mod
      f2 = Frame(env=None, mod=m, cls=None, qual=c.qual, stack=(), depth=0, node=None)
      s = self.new_state()
      e = next(self.ids)
      s.envs[e] = {"$parent": None}
      f2.env = e

      def one(d):
        if d is None:
          return None
        if isinstance(d, ast.Constant):
          return K(d.value)
        if isinstance(d, ast.Tuple) and not d.elts:
          return Tup(())
        if isinstance(d, ast.Dict) and not d.keys:
          return T("Seq", "dict")
        try:
          for _, v in self.ev(d, s, f2):
            if not isinstance(v, Raised):
              return self.reify(_, v)
        except Exception:
          pass
        return T("Default", K(ast.unparse(d)))

      c.defaults = [one(d) for d in c.node.args.defaults]
      c.kwdefaults = [one(d) for d in c.node.args.kw_defaults]
    return c.defaults, c.kwdefaults

  def bind(self, st, c, args, kws, slf, fr, node):
    """-> env dict or Raised"""
    a = c.node.args
    defs, kdefs = self.defaults_of(c)
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {"$parent": c.env}
    args = list(args)
    if slf is not None:
      args = [slf] + args
    flat = []
    for x in args:
      if x.op == "X" and x.a[0].op in ("Tup",):
        flat.extend(x.a[0].a)
      else:
        flat.append(x)
    args = flat
    i = 0
    kw = {}
    kwsplice = []
    for k, v in kws:
      if k is None:
        kwsplice.append(v)
      else:
        kw[k] = v
    for j, name in enumerate(pos):
      if i < len(args):
        x = args[i]
        if x.op == "X":
          base = x.a[0]
          need_default = j >= len(pos) - len(defs)
          if need_default and a.vararg is None and False:
            break
          env[name] = self.item(base, K(0))
          args[i] = X(self.slice(st, base, T("SliceK", K(1), NONE, NONE))) if base.op != "Slice" or True else x
          if j == len(pos) - 1 and a.vararg is None:
            i += 1
          continue
        if x.op == "LE":
          env[name] = T("It", T("Seq", "list", x), K(0))
          i += 1
          continue
        env[name] = x
        i += 1
      elif name in kw:
        env[name] = kw.pop(name)
      else:
        d = j - (len(pos) - len(defs))
        if d >= 0:
          if kwsplice:
            env[name] = T("KwOr", Tup(kwsplice), K(name), self.reify(st, defs[d]))
          else:
            env[name] = defs[d]
        elif kwsplice:
          env[name] = self.item(kwsplice[-1], K(name))
        else:
          return Raised(Ext("TypeError"), self.site(node, fr) if node is not None else (fr.mod.rel, fr.qual, 0))
    rest = args[i:]
    if a.vararg is not None:
      env[a.vararg.arg] = Tup(rest)
    elif any(x.op != "X" for x in rest):
      return Raised(Ext("TypeError"), self.site(node, fr) if node is not None else (fr.mod.rel, fr.qual, 0))
    for x, d in zip(a.kwonlyargs, kdefs):
      if x.arg in kw:
        env[x.arg] = kw.pop(x.arg)
      elif kwsplice:
        if d is not None:
          env[x.arg] = T("KwOr", Tup(kwsplice), K(x.arg), self.reify(st, d))
        else:
          env[x.arg] = self.item(kwsplice[-1], K(x.arg))
      elif d is not None:
        env[x.arg] = d
      else:
        return Raised(Ext("TypeError"), self.site(node, fr) if node is not None else (fr.mod.rel, fr.qual, 0))
    if a.kwarg is not None:
      ref = self.alloc(st, "dict")
      for s_ in kwsplice:
        self.dict_update(st, ref, s_)
      for k, v in kw.items():
        self.dict_put(st, ref, K(k), v)
      env[a.kwarg.arg] = ref
    elif kw:
      return Raised(Ext("TypeError"), self.site(node, fr) if node is not None else (fr.mod.rel, fr.qual, 0))
    if pos and c.cls is not None:
      env["$self"] = env[pos[0]]
    return env

  def inline(self, st, c, args, kws, slf, fr, node, on_yield=None):
    if fr.depth > 60:
      raise Unsupported("inlining depth")
    st = st.fork()
    env = self.bind(st, c, args, kws, slf, fr, node)
    if isinstance(env, Raised):
      yield st, env
      return
    if c.node in self.recstack:
      i = len(self.recstack) - 1 - self.recstack[::-1].index(c.node)
      yield from self.rec_call(st, c, env, fr, node)
      return
    sizes = {k: n for k, n in ((k, self.concrete_size(st, v)) for k, v in env.items() if isinstance(v, T)) if n is not None}
    outer = [(e, z) for x, e, z in fr.stack if x is c.node]
    if c.node in self.recursive and not outer and not any(sizes.values()):
      yield from self.fix(st, c, env, fr, node)
      return
    # the same lambda called through different enclosing calls (a chain of closures) is not a recursion,
    # and one over a sequence of known length that gets shorter with each call is unrolled
    chain = c.env and c.env not in [e for e, _ in outer] and len(outer) <= 5
    if outer and not chain and not any(n < outer[-1][1].get(k, 0) for k, n in sizes.items()):
      self.recursive.add(c.node)
      raise RecursionFound(c.node)
    saved = None
    try:
      results = list(self.run_body(st, c, env, fr, node, on_yield, sizes))
    except RecursionFound as e:
      if e.node is not c.node:
        raise
      results = None
    if results is None:
      yield from self.fix(st, c, env, fr, node)
      return
    yield from results

  def is_generator(self, node):
    if isinstance(node, ast.Lambda):
      return False
    for x in walk_own(node):
      if isinstance(x, (ast.Yield, ast.YieldFrom)):
        return True
    return False

  def concrete_size(self, st, v):
    if v.op in ("Cls", "Ext"):
      return 0  # smaller than any sequence holding it
    if v.op not in ("Tup", "Seq", "Ref") or v.op == "Ref" and self.obj(st, v).kind != "list":
      return None
    e = self.entries(st, v)
    if e is None or any(x.op in ("X", "LE", "For", "If", "Cat") for x in e if isinstance(x, T)):
      return None
    return len(e)

  def run_body(self, st, c, env, fr, node, on_yield=None, sizes=None):
    self.seen_functions.add(c.qual)
    st = st.fork()
    e = next(self.ids)
    st.envs[e] = env
    f2 = Frame(env=e, mod=c.mod, cls=c.cls, qual=c.qual, stack=fr.stack + ((c.node, c.env, sizes or {}),), depth=fr.depth + 1, node=c.node)
    f2.on_yield = on_yield
    ref = None
    if on_yield is None and self.is_generator(c.node):
      ref = self.alloc(st, "iter")
      f2.yields = ref
    if isinstance(c.node, ast.Lambda):
      yield from self.ev(c.node.body, st, f2)
      return
    old = st.tries
    n = 0
    for s, sig in self.ex(c.node.body, st, f2):
      n += 1
      if n > self.max_paths:
        raise Budget(f"too many paths in {c.qual}")
      if sig is None:
        yield s, ref if ref is not None else NONE
      elif sig[0] == "ret":
        yield s, ref if ref is not None else sig[1]
      elif sig[0] == "raise":
        yield s, sig[1]
      else:
        yield s, NONE

  # -------------------------------------------------------------- recursion
  def fix(self, st, c, env, fr, node):
    """Summarises a recursive function as a region over symbolic arguments."""
    names = [k for k in env if not k.startswith("$")]
    # order by first use of the value so that symbols do not depend on parameter names
    init = {}
    for k in names:
      init[k] = self.reify(st, env[k])
      if init[k].op == "Seq" and len(init[k].a) == 2 and init[k].a[1].op == "X" and init[k].a[1].a[0].op == "Slice":
        init[k] = init[k].a[1].a[0]  # a list of the items of a slice
    invariant = set()
    for k in names:
      if env[k].op in ("Fn", "Cls", "Ext", "Bound", "Partial", "Lam") or env[k].op == "Ref" and st.heap[env[k].a[0]].kind in ("dict", "list", "set"):
        invariant.add(k)
    unions = {x.arg: self.p.either(c.mod, x.annotation) for x in c.node.args.posonlyargs + c.node.args.args if x.annotation is not None}
    updated = set()  # containers passed along that the recursion updates: different after each recursive call
    captured = set()  # containers it reaches and updates
    for round_ in range(12):
      syms = {}
      counts = {}
      for k in sorted(names):
        if k in invariant:
          continue
        i0 = init[k]
        n = counts.get(i0, 0)
        counts[i0] = n + 1
        syms[k] = T("RS", i0, n)
      s0 = st.fork()
      env2 = {k: (syms[k] if k in syms else v) for k, v in env.items()}
      for k in syms:
        ty = self.types.get(env[k])
        if ty:
          self.types[syms[k]] = ty
          u = unions.get(k)
          if u is not None and u[0] == ty:
            self.unions[syms[k]] = u
      if "$self" in env2:
        pos = [x.arg for x in c.node.args.posonlyargs + c.node.args.args]
        env2["$self"] = env2[pos[0]]
      mut = getattr(self, "_fixmut", {}).get(c.node, set())
      changed = {}
      self.recstack.append(c.node)
      rec_log = []
      self._rec_info = getattr(self, "_rec_info", [])
      s1 = s0.fork()
      carriers = []
      self._rec_info.append((c.node, env2, syms, changed, carriers, updated))
      for oid in sorted(captured):
        uid = next(self.ids)
        carriers.append((uid, oid))
        s1.heap[oid] = s1.heap[oid].with_log(s1.heap[oid].log + (T("carried", T("Ext", "rec"), K(uid)),))
      try:
        results = list(self.run_body(s1, c, env2, fr, node))
      finally:
        self.recstack.pop()
        self._rec_info.pop()
      other = {k for k in invariant if env[k].op == "Ref" and changed.get(k)}
      if other:
        invariant -= other
        continue
      newinv = {k for k in syms if not changed.get(k)}
      if newinv:
        invariant |= newinv
        continue
      new = {oid for s, r in results for uid, oid in carriers if s.heap[oid] is not s1.heap[oid]} - updated
      if new:
        updated |= new
        continue
      held = {oid for _, oid in carriers}
      new = {oid for s, r in results for oid, o in s1.heap.items() if o.kind in ("dict", "list", "set") and oid not in held and s.heap.get(oid) is not o}
      if new:
        captured |= new
        continue
      if any(o.kind == "inst" and s.heap.get(oid) is not o and s.heap[oid].fields != o.fields for s, r in results for oid, o in s1.heap.items()):
        raise Unsupported(f"a recursion that sets attributes of objects outside it: {c.qual}")
      if any(s.envs.get(e) is not v and s.envs.get(e) != v for s, r in results for e, v in s1.envs.items()):
        raise Unsupported(f"a recursion that rebinds variables outside it: {c.qual}")
      break
    region = Region("fix", T("Ext", "rec"), tuple(sorted((t for t in syms.values()), key=show)))
    region.site = (c.mod.rel, c.qual, c.node.lineno)
    for uid, oid in carriers:
      self.carriers[uid] = (region, oid)
    mutated = set()
    for s, r in results:
      for oid, o in s.heap.items():
        if oid in s1.heap and s1.heap[oid] is not o:
          mutated.add(oid)
    gen = self.is_generator(c.node)
    if not gen and not mutated:
      plan = self.tail_walk(st, syms, init, env, results, s1)
      if plan is not None:
        yield from self.walk_down(st, c, env, fr, node, *plan)
        return
    anyret = False
    raises = []
    for s, r in results:
      facts = tuple((a, v) for a, v in s.facts.items() if st.facts.get(a) != v)
      views = {}
      for oid in mutated:
        p0 = s1.heap[oid].log
        o = s.heap[oid]
        new = o.log[len(p0) :] if o.log[: len(p0)] == p0 else (T("rewrite", *o.log),)
        views[oid] = tuple(self.reify(s, x) for x in new)
      for key, ents in self.event_views(events_of(s.trail, s1.trail)).items():
        views[("ev", key)] = ents
      views["events"] = tuple(events_of(s.trail, s1.trail))
      if isinstance(r, Raised):
        region.paths.append(BodyPath(facts, views, ("raise", r)))
        raises.append((s, r))
        continue
      if gen:
        views["yield"] = tuple(self.reify(s, x) for x in self.obj(s, r).log)
      else:
        views["ret"] = (self.reify(s, r),)
        if r is not NONE:
          anyret = True
      region.paths.append(BodyPath(facts, views))
    done = st.fork()
    for s, r in results:
      for f in s.flags:
        done.flag(f)
    for oid in mutated:
      if oid in done.heap:
        o = done.heap[oid]
        if any(bp.view(oid) for bp in region.paths):
          done.heap[oid] = o.with_log(o.log + (T("LE", Box(region), oid),))
    done.ev("region", region, region.site)
    for oid in list(s1.heap):
      pass
    # objects created by the recursion and reachable from the result live in the region only
    if gen:
      ref = self.alloc(done, "iter", log=(T("LE", Box(region), "yield"),))
      yield done, ref
    elif anyret:
      yield done, T("FixRes", Box(region))
    else:
      yield done, NONE
    for s, r in raises[:1]:
      s2 = st.fork()
      s2.ev("region", region, region.site)
      a = T("A.recraise", T("Ext", "rec"))
      s2.facts.assume(a, True)
      yield s2, r

  def tail_walk(self, st, syms, init, env, results, s1):
    """A recursion that only goes down a sequence, one item per call, and then acts: (sequence, its length at the end, updates)"""
    rec, base = [], []
    for s, r in results:
      evs = events_of(s.trail, s1.trail)
      (rec if any(e[0] == "rec" for e in evs) else base).append((s, r, evs))
    if not rec or not base:
      return None
    args = None
    for s, r, evs in rec:
      if len(evs) != 1 or isinstance(r, Raised) or not (r is evs[0][1] or r is NONE and all(y is NONE or isinstance(y, Raised) for _, y, _ in base)):
        return None
      if args not in (None, evs[0][1]):
        return None
      args = evs[0][1]
    # a list of the items of a slice goes down as the slice does
    items = lambda x: x.a[1].a[0] if x.op == "Seq" and x.a[0] == "list" and len(x.a) == 2 and x.a[1].op == "X" and x.a[1].a[0].op == "Slice" else x
    args = {x.a[0]: items(x.a[1]) for x in args.a}
    if any(x.op == "Inv" for x in args):
      return None
    down = [k for k, y in syms.items() if args.get(y) is T("Slice", y, K(1), NONE, NONE)]
    if len(down) != 1:
      return None
    k = down[0]
    seq = syms[k]
    size = T("Len", seq)
    ends = set()
    for group in (rec, base):
      for s, _, _ in group:
        rel = [(a, v) for a, v in s.facts.items() if st.facts.get(a) != v]
        if group is rec and any(a.a[0] is not size or a.op not in ("A.rng", "A.eq") for a, v in rel):
          return None
        if group is base:
          lo, hi = s.facts.rng(size)
          if lo != hi or lo not in (0, 1):
            return None
          ends.add(lo)
    if ends == {0, 1} and st.facts.rng(T("Len", init[k]))[0] >= 1 and all(isinstance(r, Raised) for s, r, _ in base if s.facts.rng(size) == (0, 0)):
      base = [x for x in base if x[0].facts.rng(size) != (0, 0)]  # never empty to begin with, it ends at one item
      ends = {1}
    if len(ends) != 1:
      return None
    end = ends.pop()
    if any(s.facts.rng(size)[0] == end for s, _, _ in rec) or not any(s.facts.rng(size)[1] > end for s, _, _ in rec):
      return None
    first = T("It", seq, K(0))
    m = {first: T("Item")}
    step = {}
    for y, v in args.items():
      if y is seq:
        continue
      v = rewrite_terms(v, m)
      if any(x is seq for x in walk(v)):
        return None
      step[next(q for q in syms if syms[q] is y)] = v
    if not step:
      return None
    return k, init[k], end, step, syms

  def walk_down(self, st, c, env, fr, node, k, seq, end, step, syms):
    st = st.fork()
    e = next(self.ids)
    st.envs[e] = {"$parent": fr.env, **{"$w" + q: env[q] for q in step}}
    f2 = Frame(env=e, mod=c.mod, cls=c.cls, qual=c.qual, stack=fr.stack, depth=fr.depth + 1, node=c.node)

    def body(s, el):
      s = s.fork()
      cur = s.envs[e]
      m = {syms[q]: self.reify(s, cur["$w" + q]) for q in step}
      m[T("Item")] = self.reify(s, el)
      s.envs[e] = {**cur, **{"$w" + q: rewrite_terms(v, m) for q, v in step.items()}}
      yield s, None

    over = T("Slice", seq, K(0), K(-end), NONE) if end else seq
    last = Tup([T("It", seq, K(-1))] if end else [])
    for s, sig in self.loop(st, over, body, f2, node, ["$w" + q for q in step]):
      if sig is not None:
        raise Unsupported("walk down")
      env2 = {**env, **{q: s.envs[e]["$w" + q] for q in step}, k: last}
      if "$self" in env2:
        pos = [x.arg for x in c.node.args.posonlyargs + c.node.args.args]
        env2["$self"] = env2[pos[0]]
      yield from self.run_body(s, c, env2, fr, node)

  def rec_call(self, st, c, env, fr, node):
    for nd, env2, syms, changed, carriers, updated in reversed(self._rec_info):
      if nd is c.node:
        break
    ch = []
    for k, sym in syms.items():
      v = env.get(k)
      if v is not sym:
        changed[k] = True
        ch.append(T("arg", sym, self.reify(st, v) if v is not None else NONE))
    for k, v in env2.items():
      if k.startswith("$") or k in syms:
        continue
      if env.get(k) is not v:
        changed[k] = True
        ch.append(T("arg", T("Inv", K(k)), self.reify(st, env.get(k)) if env.get(k) is not None else NONE))
    ch.sort(key=show)
    t = T("Rec", *ch)
    st = st.fork()
    st.ev("rec", t, self.site(node, fr) if node is not None else None)
    for uid, oid in carriers:
      if oid in updated and oid in st.heap:
        st.heap[oid] = st.heap[oid].with_log(st.heap[oid].log + (T("carried", T("Ext", "sub"), K(uid)),))
    if self.is_generator(c.node):
      yield st, self.alloc(st, "iter", log=(X(t),))
    else:
      yield st, t

  # ------------------------------------------------------------------ entry
  def root_frame(self, mod):
    return Frame(env=None, mod=mod, cls=None, qual="<entry>", stack=(), depth=0, node=None)

  def run(self, st, f, args, kws=()):
    """All paths of calling f: list of Path"""
    m = next(iter(self.p.modules.values()))
    fr = self.root_frame(m)
    e = next(self.ids)
    st.envs[e] = {"$parent": None}
    fr.env = e
    out = []
    mark = st.trail
    for s, r in self.call(st, f, list(args), list(kws), fr, None):
      out.append((s, r))
      if len(out) > self.max_paths:
        raise Budget("too many paths")
    return out


class LamObj:
  """A function value, summarised on demand by applying it to symbols."""

  def __init__(self, interp, fn, st, given=None):
    self.i, self.fn, self.st = interp, fn, st
    self.given = given  # how many arguments, by position, it is known to be called with
    self._sum = {}

  def arity(self):
    if self.given is not None:
      return self.given, False, (), False
    fn, slf, bound_n, bound_k = self.fn, 0, 0, set()
    while True:
      if fn.op == "Partial":
        bound_n += len(fn.a[1])
        bound_k |= {k.a[0] for k in fn.a[2]}
        fn = fn.a[0]
      elif fn.op == "Bound":
        bound_n += 1
        fn = fn.a[0]
      else:
        break
    if fn.op == "GFn":
      fn = self.i.global_fn(*fn.a)
    if fn.op != "Fn":
      return None
    c = self.i.clos[fn.a[0]]
    a = c.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[: len(pos) - nd] if isinstance(c.node, ast.Lambda) else pos
    req = [x for x in req[bound_n:] if x not in bound_k]
    kwo = [x.arg for x in a.kwonlyargs if x.arg not in bound_k]
    if isinstance(c.node, ast.Lambda):
      kwo = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return len(req), a.vararg is not None, tuple(kwo), a.kwarg is not None

  def summary(self, depth=0, nargs=None):
    key = (depth, nargs)
    if key in self._sum:
      return self._sum[key]
    ar = self.arity()
    args, kws = [], []
    if ar is None:
      n, va, kwo, kw = (nargs or 1), False, (), False
    else:
      n, va, kwo, kw = ar
    for i in range(n):
      args.append(T("P", f"λ{depth}.{i}"))
    if va:
      args.append(X(T("P", f"λ{depth}.*")))
    for k in kwo:
      kws.append((k, T("P", f"λ{depth}.{k}")))
    if kw:
      kws.append((None, T("P", f"λ{depth}.**")))
    st = self.st.fork()
    st.tries = 0
    base = st.trail
    recs, infos = self.i.recstack, getattr(self.i, "_rec_info", [])
    res = []
    for s, r in self.i.run(st, self.fn, args, kws):
      res.append((s, r, events_of(s.trail, base)))
    self._sum[key] = (res, self.st)
    return self._sum[key]


# --------------------------------------------------------------------- helpers
def parted(t):
  """the parts something splits into: a module, a context or a string, none of which gives None for a part"""
  return t.op == "Ap" and t.a[0].op == "At" and t.a[0].a[1] in ("partition", K("partition"))


def s0_log(pre, oid):
  return pre.heap[oid].log


def mapping_parts(fn, mod):
  """Which items of the tuple a function is declared to return are mappings"""
  an = fn.returns
  if isinstance(an, ast.Name) and mod.ns.get(an.id, ("",))[0] == "assign":
    an = mod.ns[an.id][1]
  elif isinstance(an, ast.Name):
    c = next((n for n in mod.tree.body if isinstance(n, ast.ClassDef) and n.name == an.id), None)
    an = c.bases[0] if c is not None and c.bases else None
  if isinstance(an, ast.Subscript) and (dotted_of(an.value) or "").split(".")[-1] in ("Tuple", "tuple") and isinstance(an.slice, ast.Tuple):
    heads = [dotted_of(e.value if isinstance(e, ast.Subscript) else e) for e in an.slice.elts]
    return [n for n, h in enumerate(heads) if (h or "").split(".")[-1] in ("Dict", "dict", "Mapping")]
  return ()


def class_name(dotted):
  """A name written like that of a class, whose call makes an instance"""
  n = dotted.rsplit(".", 1)[-1]
  return n[:1].isupper() and not n.isupper()


def of_signature(m):
  """The parameters of a signature: a mapping from names to inspect.Parameter."""
  return m.op == "At" and m.a[1] == "parameters" and m.a[0].op == "Ap" and m.a[0].a[0] is Ext("inspect.signature")


def rewrites(le):
  """Whether a loop changes or removes entries, rather than only adding some."""
  return any(x.op in ("set!", "del!", "pop!", "ins!") or x.op == "LE" and rewrites(x) for bp in le.a[0].v.paths for x in view_entries(bp, le.a[1]))


def view_entries(bp, view):
  """Entries a body path contributes to a view, incl. key/value projections."""
  if isinstance(view, tuple) and len(view) == 2 and isinstance(view[1], int) and not (view[0] == "ev"):
    base, which = view
    out = []
    for e in view_entries(bp, base):
      if e.op == "put":
        out.append(e.a[0] if which == 0 else e.a[1] if which == 1 else Tup(e.a))
      else:
        out.append(e)
    return tuple(out)
  if isinstance(view, tuple) and len(view) == 2 and view[1] == "pairs":
    out = []
    for e in view_entries(bp, view[0]):
      if e.op == "Tup" and len(e.a) == 2:
        out.append(T("put", *e.a))
      else:
        out.append(X(T("Pairs", e)))
    return tuple(out)
  return bp.view(view)


def rewrite_terms(t, m, memo=None):
  memo = {} if memo is None else memo
  if isinstance(t, tuple):
    return tuple(rewrite_terms(x, m, memo) for x in t)
  if not isinstance(t, T):
    return t
  if t in m:
    return m[t]
  if t in memo:
    return memo[t]
  na = tuple(rewrite_terms(x, m, memo) for x in t.a)
  r = memo[t] = t if na == t.a else Tup(na) if t.op == "Tup" else T(t.op, *na)
  return r


def fine_try(t):
  while t:
    if t[0] == "fine":
      return True
    t = t[1]
  return False


def exc_supers(name):
  base = {name, "Exception", "BaseException"}
  if name in ("KeyError", "IndexError"):
    base.add("LookupError")
  return base


def merge_kw(base, kws):
  out = dict(base)
  splice = []
  for k, v in kws:
    if k is None:
      splice.append((None, v))
    else:
      out[k] = v
  return list(out.items()) + splice


def root_of(t):
  while t.op in ("At", "It", "Slice", "Vars", "Key", "KeysOf", "ItemsOf", "ValuesOf", "X", "Type"):
    t = t.a[0]
  return t


def roots(t):
  """Objects an opaque call acts on: receiver and arguments, through containers but not through other calls."""
  out = []

  def visit(x, top=False):
    if not isinstance(x, T):
      if isinstance(x, tuple):
        for y in x:
          visit(y)
      return
    if x.op == "Ap" and top:
      visit(x.a[0])
      for y in x.a[1]:
        visit(y)
      for _, y in x.a[2]:
        visit(y)
      return
    if x.op in ("Tup", "Seq", "put"):
      for y in x.a:
        visit(y)
      return
    r = root_of(x)
    if r.op in ("P", "RS", "Ap", "New", "Glob", "Idx", "Inst") and r not in out:
      out.append(r)

  visit(t, True)
  return out


def known_field(interp, c, name):
  return False


def walk_own(fn):
  """Nodes of a function body, not entering nested functions."""
  st = list(fn.body)
  while st:
    x = st.pop()
    yield x
    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    st.extend(ast.iter_child_nodes(x))


def assigned_names(stmts):
  out = set()
  st = list(stmts)
  while st:
    x = st.pop()
    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
      out.add(x.id)
    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      out.add(x.name)
      continue
    if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      for y in ast.walk(x):
        if isinstance(y, ast.NamedExpr):
          out.add(y.target.id)
      continue
    st.extend(ast.iter_child_nodes(x))
  return out


INDEX_LOOPS = {}
KEY_LOOPS = {}


def plain_base(x):
  """A sequence named by an attribute or a parameter, not by how it was made."""
  while x.op in ("At", "It") and isinstance(x.a[0], T):
    if x.op == "It" and x.a[1].op != "K":
      return False
    x = x.a[0]
  return x.op == "P"


def frozen_list(v):
  """the items of a list at one moment: the same terms as those of a tuple"""
  return Tup(v.a[1:]) if v.op == "Seq" and v.a[0] in ("list", "iter") and not (len(v.a) == 2 and v.a[1].op == "X") else v


AMONG = ast.parse("any(e is x__ for e in c__)", mode="eval").body


def worklist(n):
  """while x: ... x.pop() ... x.append(...)"""
  names = {y.id for y in ast.walk(n.test) if isinstance(y, ast.Name)}
  took, gave = set(), set()
  for y in (y for s in n.body for y in ast.walk(s)):
    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name):
      if y.func.attr in ("pop", "popleft"):
        took.add(y.func.value.id)
      elif y.func.attr in ("append", "extend", "appendleft", "extendleft", "insert"):
        gave.add(y.func.value.id)
    elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
      gave.add(y.target.id)
    elif isinstance(y, ast.Assign) and any(isinstance(z, ast.Starred) for t in y.targets for z in ast.walk(t)):
      for t in y.targets:  # x, *rest = rest
        for z in ast.walk(t):
          if isinstance(z, ast.Starred) and isinstance(z.value, ast.Name):
            took.add(z.value.id)
  return bool(took & gave) and (bool(names & took & gave) or not names)


def key_loop(n):
  """for k in d: ... d[k] ...  ->  for k, v in d.items(): ... v ..., when the loop does nothing else with d"""
  if n in KEY_LOOPS:
    return KEY_LOOPS[n]
  KEY_LOOPS[n] = None
  if not isinstance(n.target, ast.Name) or not isinstance(n.iter, (ast.Name, ast.Attribute)) or dotted_of(n.iter) is None:
    return None
  d, k = ast.dump(n.iter), n.target.id
  base = n.iter
  while isinstance(base, ast.Attribute):
    base = base.value
  parents, hits = {}, 0
  for s in n.body:
    for x in ast.walk(s):
      for y in ast.iter_child_nodes(x):
        parents[y] = x
  for s in n.body:
    for x in ast.walk(s):
      if isinstance(x, (ast.Global, ast.Nonlocal)) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in (k, base.id):
        return None
      if isinstance(x, ast.Attribute) and isinstance(n.iter, ast.Attribute) and x.attr == n.iter.attr and isinstance(x.ctx, ast.Store):
        return None
      if isinstance(x, (ast.Name, ast.Attribute)) and ast.dump(x) == d:
        p = parents.get(x)
        if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, ast.Load) and isinstance(p.slice, ast.Name) and p.slice.id == k:
          hits += 1
        else:
          return None
  if not hits:
    return None
  el = f"{ast.unparse(n.iter)}[{k}]"

  class Put(ast.NodeTransformer):

    def visit_Subscript(self, x):
      if isinstance(x.ctx, ast.Load) and ast.dump(x.value) == d and isinstance(x.slice, ast.Name) and x.slice.id == k:
        return ast.copy_location(ast.Name(el, ast.Load()), x)
      return self.generic_visit(x)

  import copy
  body = [Put().visit(copy.deepcopy(s)) for s in n.body]
  f = ast.For(target=ast.Tuple([ast.Name(k, ast.Store()), ast.Name(el, ast.Store())], ast.Store()), iter=ast.Call(ast.Attribute(copy.deepcopy(n.iter), "items", ast.Load()), [], []), body=body, orelse=n.orelse)
  ast.copy_location(f, n)
  ast.fix_missing_locations(f)
  KEY_LOOPS[n] = f
  return f


def index_loop(n):
  """for i in range(len(xs)): ... xs[i] ...  ->  for i, x in enumerate(xs): ... x ..."""
  if n in INDEX_LOOPS:
    return INDEX_LOOPS[n]
  INDEX_LOOPS[n] = n
  c = n.iter
  if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and len(c.args) == 1 and not c.keywords and isinstance(n.target, ast.Name)):
    return n
  c = c.args[0]
  if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len" and len(c.args) == 1 and isinstance(c.args[0], ast.Name)):
    return n
  xs, i = c.args[0].id, n.target.id
  ok, inside, parents = True, [], {}
  for s in n.body:
    for x in ast.walk(s):
      for y in ast.iter_child_nodes(x):
        parents[y] = x
      if isinstance(x, (ast.Global, ast.Nonlocal)):
        ok = False
  for s in n.body:
    for x in ast.walk(s):
      if isinstance(x, ast.Name) and x.id in (xs, i):
        if isinstance(x.ctx, ast.Store):
          ok = False
        p = parents.get(x)
        if x.id == xs:
          if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, ast.Load) and isinstance(p.slice, ast.Name) and p.slice.id == i:
            inside.append(p)
          else:
            ok = False
  if not ok or not inside:
    return n
  el = f"{xs}[{i}]"

  class Put(ast.NodeTransformer):

    def visit_Subscript(self, x):
      if isinstance(x.value, ast.Name) and x.value.id == xs and isinstance(x.slice, ast.Name) and x.slice.id == i and isinstance(x.ctx, ast.Load):
        return ast.copy_location(ast.Name(el, ast.Load()), x)
      return self.generic_visit(x)

  import copy
  body = [Put().visit(copy.deepcopy(s)) for s in n.body]
  f = ast.For(target=ast.Tuple([ast.Name(i, ast.Store()), ast.Name(el, ast.Store())], ast.Store()), iter=ast.Call(ast.Name("enumerate", ast.Load()), [ast.Name(xs, ast.Load())], []), body=body, orelse=n.orelse)
  ast.copy_location(f, n)
  ast.fix_missing_locations(f)
  INDEX_LOOPS[n] = f
  return f


def while_to_for(n):
  """while i < E: ...; i += 1  ->  (i, E)"""
  t = n.test
  if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
    return None
  if not n.body:
    return None
  last = n.body[-1]
  if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == t.left.id and isinstance(last.value, ast.Constant) and last.value.value == 1):
    return None
  for s in n.body[:-1]:
    for x in ast.walk(s):
      if isinstance(x, ast.Continue):
        return None
      if isinstance(x, ast.Name) and x.id == t.left.id and isinstance(x.ctx, ast.Store):
        return None
  return t.left.id, t.comparators[0]


from .facts import constlike  # noqa: E402
