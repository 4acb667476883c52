"""The program under analysis: modules, imports, classes and functions of a source tree, read from source."""
import ast
import hashlib
import os

from .terms import *

ALIAS = {
    "jax.numpy": "jnp", "jax.tree_map": "jax.tree_util.tree_map", "jax.tree_leaves": "jax.tree_util.tree_leaves",
    "jax.tree_util.tree_structure": "jax.tree_util.tree_structure", "jax.remat": "jax.checkpoint",
    "jax.ad_checkpoint.checkpoint": "jax.checkpoint", "jax.core.MainTrace": "jax.core.MainTrace",
    "typing.Tuple": "tuple", "typing.Dict": "dict", "typing.List": "list", "typing.Set": "set",
    "typing.FrozenSet": "frozenset", "typing.Type": "type", "typing.Mapping": "Mapping", "typing.Sequence": "Sequence",
    "typing.Iterable": "Iterable", "typing.Iterator": "Iterator", "typing.Callable": "Callable",
    "collections.abc.Mapping": "Mapping", "collections.abc.Sequence": "Sequence", "collections.abc.Iterable": "Iterable",
    "collections.abc.Callable": "Callable", "typing.Hashable": "Hashable", "collections.abc.Iterator": "Iterator",
    "typing.MutableMapping": "MutableMapping", "collections.abc.MutableMapping": "MutableMapping",
    "builtins.Ellipsis": "Ellipsis", "types.EllipsisType": "ellipsis", "types.NoneType": "NoneType",
    "jax.random.key": "jax.random.key", "jax.sharding.PartitionSpec": "PartitionSpec",
    "jax.lax.square": "jnp.square", "jax._src.core": "jax.core",
    "jax.tree_util.Partial": "functools.partial",
    "copy.replace": "dataclasses.replace",
    "jax.nn.initializers": "jax.nn.initializers",
}
PREFIX = [("jax.numpy", "jnp"), ("numpy", "np")]


def canon_ext(d):
  if d in ALIAS:
    return ALIAS[d]
  for a, b in PREFIX:
    if d == a or d.startswith(a + "."):
      d = b + d[len(a) :]
  if d.startswith("builtins."):
    d = d[9:]
  return ALIAS.get(d, d)


class ClassInfo:

  def __init__(self, qual, node, mod):
    self.qual, self.node, self.mod = qual, node, mod
    self.methods = {}
    self.attrs = {}
    self.annots = []  # annotated names in order: (name, default node or None)
    self.bases = []
    self.metaclass = None

  def __repr__(self):
    return f"<class {self.qual}>"


class Module:

  def __init__(self, name, path, src, rel):
    self.name, self.path, self.rel = name, path, rel
    self.src = src
    self.tree = ast.parse(src, filename=path)
    self.ns = {}


def dotted_of(node):
  if isinstance(node, ast.Name):
    return node.id
  if isinstance(node, ast.Attribute):
    b = dotted_of(node.value)
    return None if b is None else b + "." + node.attr
  return None


def is_overload(fn):
  for d in fn.decorator_list:
    n = dotted_of(d if not isinstance(d, ast.Call) else d.func)
    if n and n.split(".")[-1] == "overload":
      return True
  return False


def type_checking_test(test):
  """'yes' for TYPE_CHECKING, 'no' for not TYPE_CHECKING, else None"""
  if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
    r = type_checking_test(test.operand)
    return {"yes": "no", "no": "yes"}.get(r)
  n = dotted_of(test)
  if n and n.split(".")[-1] == "TYPE_CHECKING":
    return "yes"
  return None


def flatten_body(body):
  """Statements that run at import time, TYPE_CHECKING branches resolved."""
  for s in body:
    if isinstance(s, ast.If):
      r = type_checking_test(s.test)
      if r == "yes":
        yield from flatten_body(s.orelse)
        continue
      if r == "no":
        yield from flatten_body(s.body)
        continue
      yield from flatten_body(s.body)
      yield from flatten_body(s.orelse)
    elif isinstance(s, ast.Try):
      yield from flatten_body(s.body)
    else:
      yield s


class Program:

  def __init__(self, root, package, extra=()):
    self.root = root
    self.modules = {}
    self.classes = {}
    self.units = []
    self.digest = hashlib.sha256()
    base = os.path.join(root, package)
    for d, dirs, files in sorted(os.walk(base)):
      dirs.sort()
      for f in sorted(files):
        if f.endswith(".py"):
          p = os.path.join(d, f)
          rel = os.path.relpath(p, root)
          name = rel[:-3].replace(os.sep, ".")
          if name.endswith(".__init__"):
            name = name[:-9]
          self.load(name, p, rel)
    for name, p in extra:
      self.load(name, p, os.path.basename(p))
    for m in self.modules.values():
      self.index(m)
    for c in list(self.classes.values()):
      self.link(c)
    self.generated_inits()

  def load(self, name, path, rel):
    with open(path, "rb") as f:
      raw = f.read()
    self.digest.update(rel.encode() + b"\0" + raw + b"\0")
    self.modules[name] = Module(name, path, raw.decode(), rel)
    self.units.append(rel)

  # ------------------------------------------------------------- indexing
  def index(self, m):
    pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
    for s in flatten_body(m.tree.body):
      self.index_stmt(m, pkg, s)

  def import_bindings(self, m, s):
    """name -> binding for an import statement"""
    pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
    out = {}
    if isinstance(s, ast.Import):
      for a in s.names:
        if a.asname:
          out[a.asname] = ("mod", a.name)
        else:
          out[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
    else:
      base = s.module or ""
      if s.level:
        parts = pkg.split(".")
        parts = parts[: len(parts) - (s.level - 1)]
        base = ".".join(parts + ([s.module] if s.module else []))
      for a in s.names:
        out[a.asname or a.name] = ("from", base, a.name)
    return out

  def index_stmt(self, m, pkg, s):
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      m.ns.update(self.import_bindings(m, s))
    elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      if not is_overload(s):
        m.ns[s.name] = ("func", s)
    elif isinstance(s, ast.ClassDef):
      q = m.name + "." + s.name
      c = ClassInfo(q, s, m)
      self.classes[q] = c
      m.ns[s.name] = ("class", q)
      self.index_class(c)
    elif isinstance(s, ast.Assign):
      for t in s.targets:
        if isinstance(t, ast.Name):
          m.ns[t.id] = ("assign", s.value)
        elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
          for a, b in zip(t.elts, s.value.elts):
            if isinstance(a, ast.Name):
              m.ns[a.id] = ("assign", b)
    elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
      m.ns[s.target.id] = ("assign", s.value)

  def index_class(self, c):
    for s in flatten_body(c.node.body):
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        if not is_overload(s):
          if any((dotted_of(d) or "").endswith(".setter") for d in s.decorator_list):
            c.methods[s.name + ".setter"] = s
          else:
            c.methods[s.name] = s
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            c.attrs[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        c.annots.append((s.target.id, s.value))
        if s.value is not None:
          c.attrs[s.target.id] = s.value
    for k in c.node.keywords:
      if k.arg == "metaclass":
        c.metaclass = k.value

  def link(self, c):
    c.bases = []
    for b in c.node.bases:
      t = self.static_expr(c.mod, b)
      if t is not None:
        c.bases.append(t)

  # ------------------------------------------------------------ resolution
  def resolve(self, m, name):
    """Binding of a module level name -> T or None"""
    b = m.ns.get(name)
    if b is None:
      return None
    k = b[0]
    if k == "mod":
      return self.module_term(b[1])
    if k == "from":
      return self.member(b[1], b[2])
    if k == "func":
      return T("GFn", m.name, name)
    if k == "class":
      return T("Cls", b[1])
    if k == "assign":
      return self.static_assign(m, name, b[1])

  def module_term(self, dotted):
    if dotted in self.modules:
      return T("Mod", dotted)
    return Ext(canon_ext(dotted))

  def member(self, base, name):
    if base in self.modules:
      t = self.resolve(self.modules[base], name)
      if t is not None:
        return t
      if base + "." + name in self.modules:
        return T("Mod", base + "." + name)
      return None
    return Ext(canon_ext(base + "." + name))

  def static_assign(self, m, name, node):
    t = self.static_expr(m, node)
    if t is not None and t.op in ("Cls", "Ext", "GFn", "Mod"):
      return t
    try:
      v = ast.literal_eval(node)
      if isinstance(v, (str, int, float, bool, type(None))):
        return K(v)
    except Exception:
      pass
    if isinstance(node, ast.Tuple) and node.elts and not any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(m.tree)):
      es = [None if isinstance(x, ast.Starred) else self.static_expr(m, x) for x in node.elts]
      if all(e is not None and e.op in ("Cls", "Ext") for e in es):
        return Tup(es)
    return T("Glob", m.name + "." + name)

  def static_expr(self, m, node):
    """Class / external denoted by a base-class-like expression."""
    if isinstance(node, ast.Subscript):
      return self.static_expr(m, node.value)
    if isinstance(node, ast.Name):
      t = self.resolve(m, node.id)
      if t is None and node.id not in m.ns:
        return Ext(canon_ext(node.id))
      return t
    if isinstance(node, ast.Attribute):
      b = self.static_expr(m, node.value)
      if b is None:
        return None
      if b.op == "Mod":
        return self.member(b.a[0], node.attr)
      if b.op == "Ext":
        return Ext(canon_ext(b.a[0] + "." + node.attr))
    return None

  def public(self, path):
    """Resolve a dotted public path such as nnx.Module.partition -> (T, ClassInfo or None, FunctionDef)"""
    parts = path.split(".")
    for i in range(len(parts), 0, -1):
      mod = ".".join(parts[:i])
      if mod in self.modules:
        t = T("Mod", mod)
        cls = None
        for p in parts[i:]:
          if t is None:
            return None
          if t.op == "Mod":
            t = self.member(t.a[0], p)
          elif t.op == "Cls":
            cls = t.a[0]
            hit = self.find_method(cls, p)
            if hit is None:
              return None
            t = T("Method", cls, p)
          else:
            return None
        return t
    return None

  # --------------------------------------------------------------- classes
  def mro(self, q):
    """Linearised bases as strings: repo class quals and external names."""
    c = self.classes.get(q)
    if c is None:
      return [q]
    out = [q]
    for b in c.bases:
      for x in self.mro(b.a[0]) if b.op == "Cls" else [b.a[0]]:
        if x in out and x in self.classes:
          out.remove(x)
        if x not in out:
          out.append(x)
    return out

  def find_method(self, q, name, after=None):
    mro = self.mro(q)
    if after is not None and after in mro:
      mro = mro[mro.index(after) + 1 :]
    for x in mro:
      c = self.classes.get(x)
      if c and name in c.methods:
        return c, c.methods[name]
    return None

  def find_attr(self, q, name):
    for x in self.mro(q):
      c = self.classes.get(x)
      if c and name in c.attrs:
        return c, c.attrs[name]
    return None

  def mapping_fields(self, q):
    """fields the class annotates as mappings"""
    self.field_types(q)
    return self._mapping_fields.get(q, ())

  def field_types(self, q):
    """field -> (repo class of the value, repo class of its items), from the annotations of the class."""
    memo = self.__dict__.setdefault("_field_types", {})
    self.__dict__.setdefault("_mapping_fields", {})
    if q in memo:
      return memo[q]
    memo[q] = out = {}
    for x in reversed(self.mro(q)):
      c = self.classes.get(x)
      if c is None:
        continue
      found = [(s.target.id, s.annotation) for s in flatten_body(c.node.body) if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
      init = c.methods.get("__init__")
      if init is not None:
        a = init.args
        given = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs if p.annotation is not None}
        slf = a.args[0].arg if a.args else None
        stored = {n.id for n in ast.walk(init) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for s in init.body:
          if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Name) and s.value.id in given and s.value.id not in stored:
            t = s.targets[0]
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == slf:
              found.append((t.attr, given[s.value.id]))
          elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == slf:
            found.append((s.target.attr, s.annotation))
      for name, an in found:
        out[name] = self.annotated(c.mod, an)
        h = an.value if isinstance(an, ast.Subscript) else an
        named = (dotted_of(h) or "").split(".")[-1] in ("Dict", "dict", "Mapping", "MutableMapping")
        (self._mapping_fields.setdefault(q, set()).add if named else self._mapping_fields.setdefault(q, set()).discard)(name)
    return out

  def always_has(self, q, name):
    """Constructed instances of q have the attribute: its constructor or the class body sets it."""
    if name in self.field_types(q):
      return True
    for x in self.mro(q):
      c = self.classes.get(x)
      if c is None:
        continue
      if name in c.attrs:
        return True
      init = c.methods.get("__init__")
      if init is not None and init.args.args:
        for s in init.body:
          for t in s.targets if isinstance(s, ast.Assign) else []:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.args.args[0].arg and t.attr == name:
              return True
    return False

  def annotated(self, m, an):
    if isinstance(an, ast.Constant) and isinstance(an.value, str):
      try:
        an = ast.parse(an.value, mode="eval").body
      except SyntaxError:
        return None, None

    def cls(e):
      if not isinstance(e, (ast.Name, ast.Attribute, ast.Constant)):
        return None
      if isinstance(e, ast.Constant):
        return self.annotated(m, e)[0] if isinstance(e.value, str) else None
      t = self.static_expr(m, e)
      return t.a[0] if t is not None and t.op == "Cls" else None

    if isinstance(an, ast.Subscript):
      h = (dotted_of(an.value) or "").split(".")[-1]
      es = an.slice.elts if isinstance(an.slice, ast.Tuple) else [an.slice]
      if h in ("Dict", "dict", "Mapping", "MutableMapping") and len(es) == 2:
        return None, cls(es[1])
      if h in ("List", "list", "Sequence", "Tuple", "tuple") and (len(es) == 1 or len(es) == 2 and isinstance(es[1], ast.Constant) and es[1].value is ...):
        return None, cls(es[0])
      return None, None
    return cls(an), None

  def either(self, m, an):
    """A class of the tree and a builtin type, of which something annotated is one or the other"""
    if isinstance(an, ast.Constant) and isinstance(an.value, str):
      try:
        an = ast.parse(an.value, mode="eval").body
      except SyntaxError:
        return None
    if isinstance(an, ast.Subscript) and (dotted_of(an.value) or "").split(".")[-1] == "Union" and isinstance(an.slice, ast.Tuple):
      es = an.slice.elts
    elif isinstance(an, ast.BinOp) and isinstance(an.op, ast.BitOr):
      es = [an.left, an.right]
    else:
      return None
    ts = [self.static_expr(m, e.value if isinstance(e, ast.Subscript) else e) for e in es]
    if len(ts) != 2 or None in ts:
      return None
    if ts[0].op != "Cls":
      ts.reverse()
    if ts[0].op == "Cls" and ts[0].a[0] in self.classes and ts[1].op == "Ext" and ts[1].a[0] in ("int", "str", "tuple", "list", "dict", "float"):
      return ts[0].a[0], ts[1].a[0]
    return None

  def is_dataclass(self, c):
    for d in c.node.decorator_list:
      n = dotted_of(d.func if isinstance(d, ast.Call) else d)
      if n and n.split(".")[-1] == "dataclass":
        return True
    return False

  def metaclass_of(self, q):
    for x in self.mro(q):
      c = self.classes.get(x)
      if c and c.metaclass is not None:
        return self.static_expr(c.mod, c.metaclass)
    return None

  def dataclass_fields(self, q):
    out = {}
    for x in reversed(self.mro(q)):
      c = self.classes.get(x)
      if c and self.is_dataclass(c):
        for n, d in c.annots:
          out[n] = (c, d)
    return out

  def generated_inits(self):
    """the __init__ a dataclass with a metaclass constructor gets, when its fields are plain"""
    self.plain_dataclasses = set()
    for q, c in self.classes.items():
      if not self.is_dataclass(c) or "__init__" in c.methods:
        continue
      mc = self.metaclass_of(q)
      if mc is None or mc.op != "Cls" or self.find_method(mc.a[0], "__call__") is None:
        continue
      fields = self.dataclass_fields(q)
      if not fields or any(isinstance(d, ast.Call) or cc is not c for cc, d in fields.values()):
        continue
      dec = next(d for d in c.node.decorator_list if (dotted_of(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "dataclass")
      if isinstance(dec, ast.Call) and dec.keywords:
        continue
      names = list(fields)
      defs = [d for _, d in fields.values() if d is not None]
      if any(d is None for _, d in list(fields.values())[len(names) - len(defs):]):
        continue
      body = [ast.Assign([ast.Attribute(ast.Name("self", ast.Load()), n, ast.Store())], ast.Name(n, ast.Load())) for n in names]
      if self.find_method(q, "__post_init__"):
        body.append(ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "__post_init__", ast.Load()), [], [])))
      args = ast.arguments([], [ast.arg(n) for n in ["self"] + names], None, [], [], None, defs)
      f = ast.FunctionDef("__init__", args, body, [], None)
      ast.copy_location(f, c.node)
      for n in ast.walk(f):
        if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr, ast.arg)):
          ast.copy_location(n, c.node)
      c.methods["__init__"] = f
      self.plain_dataclasses.add(q)

  def unique_method(self, name):
    hits = []
    for c in self.classes.values():
      if name in c.methods:
        hits.append(c)
    return hits[0] if len(hits) == 1 else None

  def all_functions(self):
    """(rel, qualname, node, module, class) for every function incl. nested"""
    for m in self.modules.values():
      def rec(node, qual, cls):
        for s in ast.iter_child_nodes(node):
          if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = qual + "." + s.name if qual else s.name
            yield (m.rel, q, s, m, cls)
            yield from rec(s, q, None)
          elif isinstance(s, ast.ClassDef):
            yield from rec(s, (qual + "." if qual else "") + s.name, s.name)
          else:
            yield from rec(s, qual, cls)
      yield from rec(m.tree, "", None)
