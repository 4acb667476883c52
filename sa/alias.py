"""Which shared objects each function changes: alias roots, mutation sites and held locks.

A location is (root, path): root is ("G", global) / ("C", class) / ("P", function, index) / ("D", function, parameter default),
path a short tuple of attribute names and "[]".  The analysis is flow-insensitive inside a function (an alias once, an alias
everywhere) and uses bottom-up summaries (locations a function returns, parameter locations it changes) between functions.
"""
import ast

from .program import dotted_of

MUTATORS = {
    "append", "add", "update", "pop", "popitem", "clear", "extend", "insert", "remove", "discard", "setdefault", "sort", "reverse",
    "appendleft", "popleft", "extendleft", "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__",
    "__delitem__", "__setattr__", "__delattr__", "move_to_end", "rotate",
}
VIEWS = {"get", "setdefault", "values", "items", "keys", "pop", "popitem", "popleft", "__getitem__", "__getattribute__", "__dict__"}
LOCKS = ("threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore", "multiprocessing.Lock")
FRESH_CALLS = {"list", "dict", "set", "tuple", "frozenset", "sorted", "reversed", "iter", "zip", "map", "filter", "enumerate", "str", "int", "repr", "len", "isinstance", "type"}
MUTABLE_CALLS = {"list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "bytearray", "WeakSet", "WeakKeyDictionary", "WeakValueDictionary"}
DEPTH = 3


def is_mutable_literal(e):
  if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
    return True
  if isinstance(e, ast.Call):
    n = dotted_of(e.func)
    return bool(n) and n.split(".")[-1] in MUTABLE_CALLS
  return False


class Fn:

  def __init__(self, node, mod, cls, qual, parent):
    self.node, self.mod, self.cls, self.qual, self.parent = node, mod, cls, qual, parent
    a = node.args
    self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    self.all_params = self.params + [x.arg for x in (a.vararg, a.kwarg) if x]
    self.static = any(dotted_of(d) == "staticmethod" for d in getattr(node, "decorator_list", []))
    self.classm = any(dotted_of(d) == "classmethod" for d in getattr(node, "decorator_list", [])) or getattr(node, "name", "") in ("__init_subclass__", "__class_getitem__", "__new__")
    self.env = {}
    self.globals = set()
    self.nonlocals = set()
    self.locals = set(self.all_params)
    self.rets = set()
    self.muts = []  # (loc, kind, node, locks)
    self.reads = []  # (loc, node, locks)
    self.calls = []  # (callee Fn, node, locks)
    self.sum = set()  # parameter mutations: (index, path, kind)

  @property
  def name(self):
    return getattr(self.node, "name", "<lambda>")

  def own(self):
    """nodes of this function without those of nested functions and classes"""
    stack = list(self.node.body) if isinstance(self.node.body, list) else [self.node.body]
    while stack:
      n = stack.pop()
      yield n
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        continue
      stack.extend(ast.iter_child_nodes(n))


class Aliases:

  def __init__(self, program):
    self.p = program
    self.fns = []
    self.by_node = {}
    self.by_qual = {}
    for m in program.modules.values():
      if m.name.startswith("spec_"):
        continue
      self.collect(m.tree, m, None, m.name, None)
    self.pclass = {}
    for _ in range(3):
      self.instance_attrs()
      for _ in range(6):
        before = self.size()
        for f in self.fns:
          self.scan(f)
        if self.size() == before:
          break
      if not self.parameter_classes():
        break
    for f in self.fns:
      self.mutations(f)
    for _ in range(6):
      if not self.propagate():
        break

  def size(self):
    return sum(len(v) for f in self.fns for v in f.env.values()) + sum(len(f.rets) for f in self.fns)

  # ------------------------------------------------------------ collection
  def collect(self, node, m, cls, qual, parent):
    for n in ast.iter_child_nodes(node):
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        q = qual + "." + n.name
        f = Fn(n, m, cls, q, parent)
        self.fns.append(f)
        self.by_node[n] = f
        self.by_qual.setdefault(q, f)
        for d in n.decorator_list:
          self.collect(d, m, cls, qual, parent)
        for s in n.body:
          self.collect(ast.Module([s], []), m, None, q, f)
      elif isinstance(n, ast.Lambda):
        f = Fn(n, m, None, qual + ".<lambda>", parent)
        self.fns.append(f)
        self.by_node[n] = f
        self.collect(ast.Module([ast.Expr(n.body)], []), m, None, qual + ".<lambda>", f)
      elif isinstance(n, ast.ClassDef):
        self.collect(n, m, qual + "." + n.name, qual + "." + n.name, parent)
      else:
        self.collect(n, m, cls, qual, parent)

  def instance_attrs(self):
    """attributes each class assigns on its instances"""
    self.inst = {}
    for f in self.fns:
      if f.cls and f.params and not f.static and not f.classm:
        for n in f.own():
          ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
          for t in ts:
            for x in ast.walk(t):
              if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == f.params[0]:
                self.inst.setdefault(f.cls, {}).setdefault(x.attr, []).append((f, getattr(n, "value", None)))
    for (q, i), c in self.pclass.items():
      f = self.by_qual[q]
      nm = f.all_params[i]
      for n in f.own():
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
        for t in ts:
          for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == nm:
              self.inst.setdefault(c, {}).setdefault(x.attr, []).append((f, getattr(n, "value", None)))

  def parameter_classes(self):
    """a parameter every call fills with instances of one class has that class"""
    seen, self.callers = {}, {}
    for f in self.fns:
      for n in f.own():
        if isinstance(n, ast.Call):
          for c, shift in self.callees(f, n):
            self.callers.setdefault(c.qual, []).append(f)
            if c.cls is not None:
              continue
            for i in range(len(c.all_params)):
              ls = self.actual(f, n, c, shift, i)
              seen.setdefault((c.qual, i), set()).update({self.class_of(l) for l in ls} or {None})
    new = {k: next(iter(v)) for k, v in seen.items() if len(v) == 1 and None not in v}
    changed = new != self.pclass
    self.pclass = new
    return changed

  def initialises(self, f, seen=()):
    """runs only while its object is being made"""
    if f.name in ("__init__", "__new__", "__post_init__", "__setstate__"):
      return True
    if f in seen or not f.name.startswith("_") or f.name.startswith("__"):
      return False
    cs = self.callers.get(f.qual, [])
    return bool(cs) and all(self.initialises(g, seen + (f,)) for g in cs)

  def assigned(self, cls, attr):
    return [v for c in self.p.mro(cls) for v in self.inst.get(c, {}).get(attr, [])]

  # ------------------------------------------------------------ roots
  def lookup(self, f, name):
    """locations a name may denote"""
    g = f
    while g is not None:
      if name in g.globals:
        return {(("G", g.mod.name + "." + name), ())}
      if name in g.locals and name not in g.nonlocals:
        out = set(g.env.get(name, ()))
        if name in g.all_params:
          i = g.all_params.index(name)
          out.add((("P", g.qual, i), ()))
          d = self.default_of(g, name)
          if d is not None and is_mutable_literal(d):
            out.add((("D", g.qual, name), ()))
          elif d is not None and not isinstance(d, ast.Constant):
            out |= {l for l in self.roots(g.parent or g, d) if l[0][0] != "P"} if g.parent is None or True else set()
        return out
      g = g.parent
    return self.global_loc(f.mod, name)

  def default_of(self, f, name):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if name in pos:
      j = pos.index(name) - (len(pos) - len(a.defaults))
      return a.defaults[j] if j >= 0 else None
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
      if x.arg == name:
        return d
    return None

  def global_loc(self, m, name):
    b = m.ns.get(name)
    if b is None:
      return set()
    t = self.p.resolve(m, name)
    return self.of_term(t, m, name)

  def of_term(self, t, m, name):
    if t is None:
      return set()
    if t.op == "Cls":
      return {(("C", t.a[0]), ())}
    if t.op == "GFn":
      return {(("F", t.a[0] + "." + t.a[1]), ())}
    if t.op == "Glob":
      return {(("G", t.a[0]), ())}
    if t.op == "Mod":
      return {(("M", t.a[0]), ())}
    if t.op == "K":
      b = m.ns.get(name)
      if b is not None and b[0] == "assign":
        return {(("G", m.name + "." + name), ())}
      return set()
    return set()

  def attr(self, loc, name):
    root, path = loc
    if root[0] == "M":
      m = self.p.modules.get(root[1])
      if m is None:
        return set()
      r = self.global_loc(m, name)
      if r:
        return r
      b = m.ns.get(name)
      if b is None and root[1] + "." + name in self.p.modules:
        return {(("M", root[1] + "." + name), ())}
      return {(("G", root[1] + "." + name), ())}
    if name == "__dict__":
      return {loc}
    if name == "__class__":
      c = self.class_of(loc)
      return {(("C", c), ())} if c else set()
    # an attribute found on the class and never set on an instance is shared
    c = self.class_of(loc)
    if c:
      hit = self.p.find_attr(c, name)
      if hit is not None and is_mutable_literal(hit[1]) and not self.assigned(c, name) and not self.p.is_dataclass(hit[0]):
        return {(("C", hit[0].qual), (name,))}
    if len(path) >= DEPTH:
      return {loc}
    return {(root, path + (name,))}

  def class_of(self, loc):
    root, path = loc
    if path:
      return None
    if root[0] == "P":
      f = self.by_qual.get(root[1])
      if f is None:
        return None
      if f.cls and root[2] == 0 and not f.static and not f.classm:
        return f.cls
      n = f.all_params[root[2]] if root[2] < len(f.all_params) else None
      for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if x.arg == n and x.annotation is not None:
          try:
            t = self.p.static_expr(f.mod, x.annotation)
          except Exception:
            t = None
          if t is not None and t.op == "Cls":
            return t.a[0]
      return self.pclass.get((root[1], root[2]))
    if root[0] == "G":
      v = self.global_value(root[1])
      if isinstance(v, ast.Call):
        m = self.p.modules[root[1].rpartition(".")[0]]
        t = self.p.static_expr(m, v.func)
        if t is not None and t.op == "Cls":
          return t.a[0]
        if t is not None and t.op == "Ext":
          return t.a[0]
    return None

  def global_value(self, q):
    mn, _, n = q.rpartition(".")
    m = self.p.modules.get(mn)
    b = m.ns.get(n) if m else None
    return b[1] if b and b[0] == "assign" else None

  def roots(self, f, e):
    """shared locations the value of e may be (part of)"""
    if isinstance(e, ast.Name):
      return self.lookup(f, e.id)
    if isinstance(e, ast.Attribute):
      out = set()
      for l in self.roots(f, e.value):
        out |= self.attr(l, e.attr)
      return out
    if isinstance(e, ast.Subscript):
      return {self.index(l) for l in self.roots(f, e.value) if l[0][0] not in ("M", "F") and not (l[0][0] == "C" and not l[1])}
    if isinstance(e, ast.IfExp):
      return self.roots(f, e.body) | self.roots(f, e.orelse)
    if isinstance(e, ast.BoolOp):
      return set().union(*(self.roots(f, v) for v in e.values))
    if isinstance(e, ast.NamedExpr):
      return self.roots(f, e.value)
    if isinstance(e, (ast.Starred, ast.Await)):
      return self.roots(f, e.value)
    if isinstance(e, ast.Call):
      return self.call_roots(f, e)
    return set()

  def index(self, l):
    return l if len(l[1]) >= DEPTH or l[1][-1:] == ("[]",) else (l[0], l[1] + ("[]",))

  def call_roots(self, f, e):
    n = dotted_of(e.func)
    if n == "vars" and len(e.args) == 1:
      return self.roots(f, e.args[0])
    if n in ("globals", "locals"):
      return {(("M", f.mod.name), ("$globals",))} if n == "globals" else set()
    if n == "type" and len(e.args) == 1:
      out = set()
      for l in self.roots(f, e.args[0]):
        c = self.class_of(l)
        if c:
          out.add((("C", c), ()))
      return out
    if n == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
      out = set()
      for l in self.roots(f, e.args[0]):
        out |= self.attr(l, e.args[1].value)
      for d in e.args[2:]:
        out |= self.roots(f, d)
      return out
    if n == "next" and e.args:
      return {self.index(l) for l in self.roots(f, e.args[0])}
    out = set()
    cs = self.callees(f, e)
    for c, shift in cs:
      for root, path in c.rets:
        if root[0] == "P" and root[1] == c.qual:
          for l in self.actual(f, e, c, shift, root[2]):
            r = l
            for x in path:
              r = self.index(r) if x == "[]" else (r[0], (r[1] + (x,))[:DEPTH])
            out.add(r)
        elif root[0] != "P":
          out.add((root, path))
    if not cs and isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS:
      out |= {self.index(l) for l in self.roots(f, e.func.value) if l[0][0] not in ("M", "F", "C") or l[1]}
      for a in e.args[1:]:
        out |= self.roots(f, a)
    return out

  # ------------------------------------------------------------ calls
  def callees(self, f, e):
    """[(function, number of receiver arguments)]"""
    fn = e.func
    out = []
    # local function
    if isinstance(fn, ast.Name):
      g = f
      while g is not None:
        if fn.id in g.locals:
          for h in self.fns:
            if h.parent is g and h.name == fn.id and h.cls is None:
              return [(h, 0)]
          break
        g = g.parent
    for l in self.roots(f, fn):
      root, path = l
      if root[0] == "F" and not path:
        h = self.by_qual.get(root[1])
        if h is not None:
          out.append((h, 0))
      elif root[0] == "C" and not path:
        hit = self.p.find_method(root[1], "__init__")
        if hit is not None and hit[1] in self.by_node:
          out.append((self.by_node[hit[1]], 1))
      elif root[0] == "C" and len(path) == 1:
        hit = self.p.find_method(root[1], path[0])
        if hit is not None and hit[1] in self.by_node:
          h = self.by_node[hit[1]]
          out.append((h, 1 if h.classm else 0))
    if isinstance(fn, ast.Attribute):
      for l in self.roots(f, fn.value):
        c = self.class_of(l)
        if c:
          hit = self.p.find_method(c, fn.attr)
          if hit is not None and hit[1] in self.by_node:
            h = self.by_node[hit[1]]
            out.append((h, 0 if h.static else 1))
    # instances called as functions
    for l in self.roots(f, fn):
      c = self.class_of(l)
      if c:
        hit = self.p.find_method(c, "__call__")
        if hit is not None and hit[1] in self.by_node:
          out.append((self.by_node[hit[1]], 1))
    seen, res = set(), []
    for h, s in out:
      if (h.qual, s) not in seen:
        seen.add((h.qual, s))
        res.append((h, s))
    return res

  def actual(self, f, e, c, shift, i):
    """locations passed for parameter i of callee c"""
    if i < shift:
      if isinstance(e.func, ast.Attribute):
        r = self.roots(f, e.func.value)
        return {l for l in r if l[0][0] != "M"} or self.roots(f, e.func)
      return {l for l in self.roots(f, e.func) if l[0][0] != "C"}
    name = c.all_params[i] if i < len(c.all_params) else None
    for k in e.keywords:
      if k.arg == name:
        return self.roots(f, k.value)
    j = i - shift
    a = c.node.args
    npos = len(a.posonlyargs + a.args)
    if i < npos and j < len(e.args) and not any(isinstance(x, ast.Starred) for x in e.args[: j + 1]):
      return self.roots(f, e.args[j])
    return set()

  # ------------------------------------------------------------ environment
  def scan(self, f):
    body = f.node.body if isinstance(f.node.body, list) else [ast.Return(f.node.body)]
    for n in f.own():
      if isinstance(n, ast.Global):
        f.globals.update(n.names)
      elif isinstance(n, ast.Nonlocal):
        f.nonlocals.update(n.names)
    for n in f.own():
      for x in ([n.target] if isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) else n.targets if isinstance(n, ast.Assign) else [i.optional_vars for i in n.items if i.optional_vars] if isinstance(n, (ast.With, ast.AsyncWith)) else []):
        for y in ast.walk(x):
          if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in f.globals:
            f.locals.add(y.id)
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        f.locals.add(n.name)
      if isinstance(n, ast.ExceptHandler) and n.name:
        f.locals.add(n.name)
      if isinstance(n, (ast.Import, ast.ImportFrom)):
        pass
    f.locals -= f.globals
    for n in f.own():
      if isinstance(n, ast.Assign):
        for t in n.targets:
          self.bind(f, t, n.value)
      elif isinstance(n, ast.AnnAssign) and n.value is not None:
        self.bind(f, n.target, n.value)
      elif isinstance(n, ast.NamedExpr):
        self.bind(f, n.target, n.value)
      elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
        for l in self.roots(f, n.iter):
          self.bind_loc(f, n.target, self.index(l))
      elif isinstance(n, (ast.With, ast.AsyncWith)):
        for i in n.items:
          if i.optional_vars is not None:
            self.bind(f, i.optional_vars, i.context_expr)
      elif isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
        f.rets |= {l for l in self.roots(f, n.value) if l[0][0] != "M"}
      elif isinstance(n, ast.YieldFrom):
        f.rets |= {l for l in self.roots(f, n.value) if l[0][0] != "M"}
    if isinstance(f.node, ast.Lambda):
      f.rets |= {l for l in self.roots(f, f.node.body) if l[0][0] != "M"}

  def bind(self, f, t, v):
    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
      for a, b in zip(t.elts, v.elts):
        self.bind(f, a, b)
      return
    for l in self.roots(f, v):
      self.bind_loc(f, t, l)

  def bind_loc(self, f, t, l):
    if isinstance(t, ast.Name):
      if t.id not in f.globals:
        g = f
        if t.id in f.nonlocals:
          g = f.parent
          while g is not None and (t.id not in g.locals or t.id in g.nonlocals):
            g = g.parent
        if g is not None:
          g.env.setdefault(t.id, set()).add(l)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        self.bind_loc(f, x, self.index(l))
    elif isinstance(t, ast.Starred):
      self.bind_loc(f, t.value, l)

  # ------------------------------------------------------------ mutations
  def lock_locs(self, f, e):
    """lock objects an expression denotes"""
    out = set()
    for l in self.roots(f, e):
      if self.is_lock(l):
        out.add(self.norm_lock(l))
    return out

  def norm_lock(self, l):
    root, path = l
    if root[0] == "P" and path:
      c = self.class_of((root, ()))
      if c:
        return ("attr", c, path[-1])
    return l

  def is_lock_value(self, mod, v):
    if not isinstance(v, ast.Call):
      return False
    t = self.p.static_expr(mod, v.func)
    return t is not None and t.op == "Ext" and t.a[0] in LOCKS

  def is_lock(self, l):
    root, path = l
    if root[0] == "G" and not path:
      v = self.global_value(root[1])
      m = self.p.modules.get(root[1].rpartition(".")[0])
      return m is not None and self.is_lock_value(m, v)
    c = self.class_of((root, ())) if root[0] in ("P", "G") else root[1] if root[0] == "C" else None
    if c and len(path) == 1 and c in self.p.classes:
      vals = self.assigned(c, path[0])
      if vals:
        # one lock per object: set where the object is made
        return all(self.is_lock_value(f.mod, v) and self.initialises(f) for f, v in vals if v is not None)
      hit = self.p.find_attr(c, path[0])
      return hit is not None and self.is_lock_value(hit[0].mod, hit[1])
    return False

  def mutations(self, f):
    f.muts, f.reads, f.calls = [], [], []
    body = f.node.body if isinstance(f.node.body, list) else [ast.copy_location(ast.Expr(f.node.body), f.node.body)]
    self.block(f, body, frozenset())
    f.sum = {(l[0][2], l[1], k) for l, k, _, _ in f.muts if l[0][0] == "P" and l[0][1] == f.qual}

  def block(self, f, stmts, held):
    for s in stmts:
      acq = rel = None
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        if s.value.func.attr == "acquire":
          acq = self.lock_locs(f, s.value.func.value)
        elif s.value.func.attr == "release":
          rel = self.lock_locs(f, s.value.func.value)
      if acq:
        held = held | acq
        continue
      if rel:
        held = held - rel
        continue
      self.stmt(f, s, held)
      # a try whose finally releases the lock gives it up afterwards
      if isinstance(s, ast.Try):
        for x in s.finalbody:
          if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "release":
            held = held - self.lock_locs(f, x.value.func.value)

  def stmt(self, f, s, held):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      return
    if isinstance(s, (ast.With, ast.AsyncWith)):
      h = held
      for i in s.items:
        self.expr(f, i.context_expr, held)
        h = h | self.lock_locs(f, i.context_expr)
      self.block(f, s.body, h)
      return
    if isinstance(s, ast.Try):
      self.block(f, s.body, held)
      for x in s.handlers:
        self.block(f, x.body, held)
      self.block(f, s.orelse, held)
      self.block(f, s.finalbody, held)
      return
    if isinstance(s, (ast.If, ast.While)):
      self.expr(f, s.test, held)
      self.block(f, s.body, held)
      self.block(f, s.orelse, held)
      return
    if isinstance(s, (ast.For, ast.AsyncFor)):
      self.expr(f, s.iter, held)
      self.target(f, s.target, held)
      self.block(f, s.body, held)
      self.block(f, s.orelse, held)
      return
    if isinstance(s, ast.Match):
      self.expr(f, s.subject, held)
      for c in s.cases:
        self.block(f, c.body, held)
      return
    if isinstance(s, ast.Assign):
      self.expr(f, s.value, held)
      for t in s.targets:
        self.target(f, t, held)
      return
    if isinstance(s, ast.AugAssign):
      self.expr(f, s.value, held)
      if isinstance(s.target, ast.Name):
        if s.target.id in f.globals:
          self.mut(f, (("G", f.mod.name + "." + s.target.id), ()), "bind", s, held)
          self.read(f, (("G", f.mod.name + "." + s.target.id), ()), s, held)
        else:
          for l in self.lookup(f, s.target.id):
            self.mut(f, l, "inplace?", s, held)
      else:
        self.read_target(f, s.target, held)
        self.target(f, s.target, held)
      return
    if isinstance(s, ast.AnnAssign):
      if s.value is not None:
        self.expr(f, s.value, held)
        self.target(f, s.target, held)
      return
    if isinstance(s, ast.Delete):
      for t in s.targets:
        self.target(f, t, held)
      return
    for n in ast.iter_child_nodes(s):
      if isinstance(n, ast.expr):
        self.expr(f, n, held)

  def read_target(self, f, t, held):
    if isinstance(t, ast.Attribute):
      for l in self.roots(f, t.value):
        for x in self.attr(l, t.attr):
          self.read(f, x, t, held)

  def target(self, f, t, held):
    if isinstance(t, ast.Name):
      if t.id in f.globals:
        self.mut(f, (("G", f.mod.name + "." + t.id), ()), "bind", t, held)
      return
    if isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        self.target(f, x, held)
      return
    if isinstance(t, ast.Starred):
      self.target(f, t.value, held)
      return
    self.expr(f, t.value, held)
    for l in self.roots(f, t.value):
      if isinstance(t, ast.Attribute):
        for x in self.attr_store(l, t.attr):
          self.mut(f, x, "bind", t, held)
      else:
        if l[0][0] == "M" and l[1] == ("$globals",) and isinstance(t.slice, ast.Constant):
          self.mut(f, (("G", f"{l[0][1]}.{t.slice.value}"), ()), "bind", t, held)
        else:
          self.mut(f, l, "inplace", t, held)

  def attr_store(self, l, name):
    root, path = l
    if root[0] == "M":
      return {(("G", root[1] + "." + name), ())}
    if len(path) >= DEPTH:
      return {l}
    return {(root, path + (name,))}

  def expr(self, f, e, held):
    for n in self.walk(e):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for l in self.roots(f, n.value):
          if l[0][0] != "M":
            for x in self.attr(l, n.attr):
              self.read(f, x, n, held)
          else:
            for x in self.attr(l, n.attr):
              self.read(f, x, n, held)
      elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        for l in self.lookup(f, n.id):
          if l[0][0] == "G" and not l[1]:
            self.read(f, l, n, held)
      elif isinstance(n, ast.Call):
        self.call(f, n, held)

  def walk(self, e):
    stack = [e]
    while stack:
      n = stack.pop()
      yield n
      if isinstance(n, ast.Lambda):
        continue
      stack.extend(ast.iter_child_nodes(n))

  def call(self, f, n, held):
    d = dotted_of(n.func)
    if d in ("setattr", "delattr", "object.__setattr__", "object.__delattr__", "type.__setattr__") and n.args:
      nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else "[]"
      for l in self.roots(f, n.args[0]):
        for x in self.attr_store(l, nm):
          self.mut(f, x, "bind", n, held)
      return
    cs = self.callees(f, n)
    for c, shift in cs:
      f.calls.append((c, shift, n, held))
    if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
      for l in self.roots(f, n.func.value):
        if l[0][0] in ("M", "F") or l[0][0] == "C" and not l[1]:
          continue
        c = self.class_of(l)
        if c and c in self.p.classes and self.p.find_method(c, n.func.attr):
          continue
        self.mut(f, l, "inplace", n, held)
    elif not cs and isinstance(n.func, ast.Attribute) and n.func.attr in ("__iadd__",):
      for l in self.roots(f, n.func.value):
        self.mut(f, l, "inplace", n, held)

  def mut(self, f, l, kind, node, held):
    f.muts.append((l, kind, node, held))

  def read(self, f, l, node, held):
    f.reads.append((l, node, held))

  def propagate(self):
    """changes made through a callee's parameters are changes of the arguments"""
    changed = False
    for f in self.fns:
      known = {(l, k, id(n)) for l, k, n, _ in f.muts}
      for c, shift, n, held in f.calls:
        for i, path, kind in list(c.sum):
          for l in self.actual(f, n, c, shift, i):
            if l[0][0] in ("M", "F"):
              continue
            if i < shift and c.name in ("__init__",):
              continue
            r = l
            for x in path:
              r = self.index(r) if x == "[]" else (r[0], (r[1] + (x,))[:DEPTH])
            if (r, kind, id(n)) not in known:
              known.add((r, kind, id(n)))
              # the callee's own locks guard its own accesses
              cl = [h for l2, k2, _, h in c.muts if l2 == (("P", c.qual, i), path) and k2 == kind]
              inner = frozenset.intersection(*cl) if cl else frozenset()
              f.muts.append((r, kind, n, held | inner))
              changed = True
              if r[0][0] == "P" and r[0][1] == f.qual:
                f.sum.add((r[0][2], r[1], kind))
    return changed
