"""Rules checked at every matching construct of the tree (shared state, locks, side effects, options, keys)."""
import ast

from .alias import Aliases, is_mutable_literal, dotted_of
from .obligation import Result

_CACHE = {}


def aliases(p):
  a = _CACHE.get(id(p))
  if a is None:
    a = _CACHE[id(p)] = Aliases(p)
  return a


def site(f, n):
  return f"{f.mod.rel}:{getattr(n, 'lineno', 0)} in {f.qual}"


def name_of(loc):
  root, path = loc
  return ".".join([str(root[1])] + [x for x in path]).replace(".[]", "[]")


# ------------------------------------------------------------------ shared state
def value_class(a, q):
  """class of the object a module-level name holds: repo class, external class or None"""
  return a.class_of((("G", q), ()))


def thread_local(a, c):
  return c is not None and ("threading.local" in a.p.mro(c) or c in ("threading.local", "_thread._local"))


def registration(a, f, seen=()):
  """the function only runs while classes are being defined or types registered"""
  n = f.name
  if n.lstrip("_").startswith("register") or n in ("__init_subclass__", "__set_name__"):
    return True
  if f.cls and "type" in [x.split(".")[-1] for x in a.p.mro(f.cls)] and n in ("__new__", "__init__"):
    return True
  if f.parent is not None and not isinstance(f.node, ast.Lambda) and registration(a, f.parent, seen):
    return False
  if not n.startswith("_") or n.startswith("__") or f in seen:
    return False
  callers = [g for g in a.fns if any(c is f for c, _, _, _ in g.calls)]
  refs = [g for g in a.fns for x in g.own() if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
  if any(g not in callers for g in refs):
    return False
  top = n in {x.id for m in a.p.modules.values() if m.name == f.mod.name for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) for x in ast.walk(s) if isinstance(x, ast.Name)}
  return (bool(callers) or top) and all(registration(a, g, seen + (f,)) for g in callers)


def shared_value(a, f, v, depth=0):
  """the expression may evaluate to an object more than one thread sees"""
  if v is None or isinstance(v, ast.Constant):
    return None
  for root, path in a.roots(f, v):
    if root[0] == "D":
      return "a mutable default argument"
    if root[0] in ("G", "C"):
      q = name_of((root, path))
      g = a.global_value(root[1]) if root[0] == "G" and not path else None
      if root[0] == "G" and not path and not (g is not None and (is_mutable_literal(g) or isinstance(g, ast.Call))):
        continue
      return q
  return None


class ModuleFrame:
  """stands for code evaluated when a module or class body runs"""

  def __init__(self, mod):
    self.mod, self.globals, self.nonlocals, self.locals, self.env, self.parent, self.all_params = mod, set(), set(), set(), {}, None, []
    self.qual = mod.name


def per_thread(a, cls, attr):
  """None when every thread gets its own initial value of the attribute, else what is shared"""
  asg = a.assigned(cls, attr) if cls in a.p.classes else []
  inits = [(f, v) for f, v in asg if a.initialises(f)]
  if inits:
    for f, v in inits:
      s = shared_value(a, f, v)
      if s:
        return s
    return None
  if cls not in a.p.classes:
    return None
  hit = a.p.find_attr(cls, attr)
  v = hit[1] if hit is not None else None
  if hit is None:
    for x in a.p.mro(cls):
      c = a.p.classes.get(x)
      if c:
        for n, d in c.annots:
          if n == attr and d is not None:
            hit, v = (c, d), d
  if v is None:
    return None
  fr = ModuleFrame(hit[0].mod)
  if isinstance(v, ast.Call) and (dotted_of(v.func) or "").split(".")[-1] == "field":
    kw = {k.arg: k.value for k in v.keywords}
    if "default_factory" in kw:
      d = kw["default_factory"]
      if isinstance(d, ast.Lambda):
        f = a.by_node.get(d)
        return shared_value(a, f or fr, d.body)
      for l in a.roots(fr, d):
        if l[0][0] == "F" and not l[1]:
          f = a.by_qual.get(l[0][1])
          for root, path in f.rets if f else ():
            if root[0] in ("G", "C", "D"):
              return name_of((root, path))
      return None
    if "default" in kw:
      v = kw["default"]
    else:
      return None
  if is_mutable_literal(v):
    return f"the class attribute {cls}.{attr}"
  return shared_value(a, fr, v)


def shared_state(p):
  """[(verdict, key, site, detail)] for every run-time change of an object that outlives the call"""
  a = aliases(p)
  out = []
  for f in a.fns:
    for l, kind, node, held in f.muts:
      root, path = l
      if root[0] not in ("G", "C", "D"):
        continue
      at = site(f, node)
      what = name_of(l)
      if root[0] == "D":
        if kind == "inplace?":
          continue
        out.append(("VIOLATION", f"default:{root[1]}.{root[2]}", at, f"the mutable default of parameter {root[2]} of {root[1]} is changed in place: every later call and thread sees it"))
        continue
      if kind == "inplace?":
        v = a.global_value(root[1]) if root[0] == "G" and not path else None
        if v is None or not is_mutable_literal(v):
          continue
        kind = "inplace"
      if f.cls == root[1] and root[0] == "C" and f.name in ("__init_subclass__", "__class_getitem__") and f.name != "__class_getitem__":
        continue
      cls = value_class(a, root[1]) if root[0] == "G" else None
      if thread_local(a, cls):
        if not path:
          out.append(("VIOLATION", what, at, f"the process-wide name {what} is rebound at run time, for every thread"))
          continue
        if kind == "inplace" or len(path) > 1:
          s = per_thread(a, cls, path[0])
          if s:
            out.append(("VIOLATION", what, at, f"{what} is changed in place, but its initial value is {s}, which every thread shares"))
            continue
          bad = None
          for g in a.fns:
            for x in g.own():
              if isinstance(x, ast.Assign):
                for t in x.targets:
                  if isinstance(t, ast.Attribute) and t.attr == path[0] and (root, ()) in a.roots(g, t.value):
                    bad = bad or shared_value(a, g, x.value)
          if bad and "thread" not in bad and not bad.startswith(name_of((root, ()))):
            out.append(("VIOLATION", what, at, f"{what} is changed in place and may be {bad}, which every thread shares"))
            continue
        if cls in ("threading.local", "_thread._local") or cls in p.classes and p.find_attr(cls, path[0]) is None and not any(n == path[0] and d is not None for x in p.mro(cls) if x in p.classes for n, d in p.classes[x].annots) and not any(g.name in ("__init__", "__new__") for g, _ in a.assigned(cls, path[0])):
          guards = any(isinstance(x, ast.Call) and dotted_of(x.func) in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == path[0] for g in a.fns for x in g.own())
          tries = any(isinstance(x, ast.ExceptHandler) and x.type is not None and "AttributeError" in ast.unparse(x.type) for g in a.fns if g.mod is f.mod for x in g.own())
          binds = any(l2 == (root, path[:1]) and k2 == "bind" for g in a.fns for l2, k2, _, _ in g.muts)
          if not guards and not tries and not binds:
            out.append(("VIOLATION", what, at, f"{what} exists only on the thread that imported the module"))
            continue
        out.append(("PASS", what, at, "thread-local"))
        continue
      if cls in ("contextvars.ContextVar",):
        if kind == "inplace" and path:
          v = a.global_value(root[1])
          d = next((k.value for k in v.keywords if k.arg == "default"), None) if isinstance(v, ast.Call) else None
          if d is not None and is_mutable_literal(d):
            out.append(("VIOLATION", what, at, f"the default of context variable {root[1]} is changed in place and shared by every thread"))
        continue
      if registration(a, f):
        out.append(("PASS", what, at, "registration"))
        continue
      if held:
        out.append(("PASS", what, at, "under lock " + ", ".join(sorted(map(str, held)))))
        continue
      out.append(("VIOLATION", what, at, f"{what} is shared by all threads and changed at run time without a lock"))
  return out


# ------------------------------------------------------------------ locks
def entry_locks(a, f, seen=()):
  """locks held at every call of a private helper"""
  if not f.name.startswith("_") or f.name.startswith("__") or f in seen:
    return frozenset()
  hs = []
  for g in a.fns:
    for c, _, _, held in g.calls:
      if c is f:
        hs.append(held | entry_locks(a, g, seen + (f,)))
  return frozenset.intersection(*map(frozenset, hs)) if hs else frozenset()


def norm(a, l):
  root, path = l
  if root[0] == "P" and path:
    c = a.class_of((root, ()))
    return ("attr", c, path) if c else None
  if root[0] == "G" and path:
    c = a.class_of((root, ()))
    if c in a.p.classes:
      return ("attr", c, path)
  if root[0] in ("G", "C"):
    return (root, path)
  return None


def lock_discipline(p):
  """fields written under a lock are never written, nor read by code that writes them, without it"""
  a = aliases(p)
  acc = {}
  for f in a.fns:
    if a.initialises(f):
      continue
    ent = entry_locks(a, f)
    for l, k, n, held in f.muts:
      # a change made by a callee is accounted for in the callee
      if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "update", "pop", "clear", "setdefault", "extend", "insert", "remove", "discard")) and dotted_of(n.func) not in ("setattr", "delattr", "object.__setattr__"):
        continue
      x = norm(a, l)
      if x:
        acc.setdefault(x, []).append(("write", f, n, frozenset(held | ent)))
    for l, n, held in f.reads:
      x = norm(a, l)
      if x:
        acc.setdefault(x, []).append(("read", f, n, frozenset(held | ent)))
  out = []
  for x, evs in sorted(acc.items(), key=lambda kv: str(kv[0])):
    writes = [e for e in evs if e[0] == "write"]
    locked = [e for e in writes if e[3]]
    if not locked:
      continue
    common = frozenset.intersection(*[e[3] for e in locked])
    writers = {e[1] for e in writes}
    for _ in range(4):
      writers |= {g for g in a.fns for c, _, _, _ in g.calls if c in writers and g.cls and any(c.cls == g.cls for _ in (0,))}
    label = x[1] + "." + ".".join(x[2]) if x[0] == "attr" else name_of(x)
    if not common:
      out.append(("VIOLATION", label, site(locked[0][1], locked[0][2]), f"{label} is written under different locks"))
      continue
    bad = False
    for kind, f, n, held in evs:
      if kind == "read" and f not in writers:
        continue
      if not held & common:
        bad = True
        out.append(("VIOLATION", label, site(f, n), f"{label} is {'written' if kind == 'write' else 'read'} without the lock that guards its other changes, so two threads can use the same value"))
    if not bad:
      out.append(("PASS", label, site(locked[0][1], locked[0][2]), f"{len(evs)} accesses under one lock"))
  return out


def identity_counter(p):
  """everything a new module identity is drawn from is process-wide, guarded and never set back"""
  a = aliases(p)
  out = []
  roots = [f for f in a.fns if f.name == "__init__" and f.cls and f.cls.split(".")[-1] == "ModuleState"]
  for f in roots:
    for l, k, n, held in f.muts:
      if l[0][0] not in ("G", "C"):
        continue
      what = name_of(l)
      cls = value_class(a, l[0][1]) if l[0][0] == "G" else None
      if thread_local(a, cls):
        out.append(("VIOLATION", what, site(f, n), f"identities are drawn from {what}, which is separate on every thread, so threads give out the same identity"))
      elif not held:
        out.append(("VIOLATION", what, site(f, n), f"identities are drawn from {what} without a lock"))
      else:
        out.append(("PASS", what, site(f, n), "under a lock"))
      x = norm(a, l)
      for g in a.fns:
        if a.initialises(g):
          continue
        for s in g.own():
          ts = s.targets if isinstance(s, ast.Assign) else []
          for t in ts:
            if isinstance(t, ast.Attribute) and isinstance(s.value, ast.Constant) and any(norm(a, y) == x for b in a.roots(g, t.value) for y in a.attr_store(b, t.attr)):
              out.append(("VIOLATION", what, site(g, s), f"{what} is set back to {s.value.value!r}: identities given out before are given out again"))
  return out


# ------------------------------------------------------------------ functional operations
FUNCTIONAL = {
    # property: [(class suffix or None, module, names or None = all, excluded names, parameters that may change)]
    "S03": [("State", "nnx.state", None, {"__init__", "__setitem__", "__setattr__", "__delitem__", "__new__"})],
    "S01": [(None, "nnx.state", None, set()), (None, "nnx.partitioning", None, set())],
    "M03": [("ModuleDef", "nnx.module", None, {"__init__"}), ("Pure", "nnx.module", None, {"__init__"})],
    "M01": [("Module", "nnx.module", {"partition", "get_state", "filter", "clone", "get_moduledef", "deepcopy", "submodules", "for_each", "modules", "named_modules"}, set()), (None, "nnx.module", {"_get_module_state", "_get_module_def", "_iter_state"}, set())],
    "H01": [("TrainState", "nnx.helpers", {"apply_gradients", "replace", "apply"}, set())],
    "V01": [("Container", "nnx.containers", None, {"__init__", "__setattr__"})],
    "Y02": [("Pytree", "nnx.pytreelib", {"replace", "_pytree__flatten", "_pytree__unflatten"}, set())],
    "L01": [(None, "nnx.spmd", {"logical_to_mesh_axes", "_logical_to_mesh_axes", "logical_to_mesh", "logical_to_mesh_sharding", "get_partition_spec", "get_sharding"}, set())],
    "L02": [(None, "nnx.spmd", {"add_axis", "remove_axis"}, set())],
    "R02": [("ContextDef", "nnx.contextlib", None, {"__init__"})],
}


def functional(p, pid):
  a = aliases(p)
  out = []
  for cls, mod, names, skip in FUNCTIONAL.get(pid, []):
    for f in a.fns:
      if f.mod.name != mod or (cls is None) != (f.cls is None) or f.parent is not None:
        continue
      if cls is not None and f.cls.split(".")[-1] != cls:
        continue
      if f.name in skip or names is not None and f.name not in names:
        continue
      bad = [(i, path, k) for i, path, k in f.sum if k != "inplace?" and not (k == "inplace" and path and path[0] == "tx")]
      n_fixed = len(f.params)
      bad = [b for b in bad if b[0] < n_fixed]  # *args and **kwargs are fresh objects
      # code may rebind the parameter to a copy first
      bad = [b for b in bad if not rebound(f, f.all_params[b[0]])]
      if cls is None and f.name.startswith("_"):
        # private helpers may fill accumulators their callers made
        bad = []
      if bad:
        i, path, k = sorted(bad)[0]
        out.append(("VIOLATION", f"functional:{f.qual}", f"{f.mod.rel}:{f.node.lineno} in {f.qual}", f"{f.qual} changes its operand {f.all_params[i]}" + "".join("[...]" if x == "[]" else "." + x for x in path)))
      else:
        out.append(("PASS", f"functional:{f.qual}", f"{f.mod.rel}:{f.node.lineno}", "changes none of its operands"))
  return out


def rebound(f, name):
  return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in f.own())


# ------------------------------------------------------------------ options
def option_used(a, f, param, seen):
  """the parameter influences something other than a field nobody reads"""
  if (f.qual, param) in seen:
    return False
  seen.add((f.qual, param))
  parents = {}
  for n in ast.walk(f.node):
    for c in ast.iter_child_nodes(n):
      parents[c] = n
  for n in ast.walk(f.node):
    if not (isinstance(n, ast.Name) and n.id == param and isinstance(n.ctx, ast.Load)):
      continue
    up = parents.get(n)
    if isinstance(up, ast.Assign) and up.value is n and all(isinstance(t, ast.Attribute) for t in up.targets):
      if any(attr_read(a, t.attr, f) for t in up.targets):
        return True
      continue
    if isinstance(up, ast.keyword) and isinstance(parents.get(up), ast.Call):
      r = forwarded(a, f, parents[up], up.arg, seen)
      if r is not None:
        if r:
          return True
        continue
    return True
  return False


def forwarded(a, f, call, kw, seen):
  """None when the callee is unknown, else whether the option takes effect there"""
  d = dotted_of(call.func)
  last = (d or "").split(".")[-1]
  # the metaclass constructor of a lifted class passes its options on to the class's own __init__
  if isinstance(call.func, ast.Name):
    src = next((s.value for g in [f] + ([f.parent] if f.parent else []) for s in g.own() if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == call.func.id for t in s.targets)), None)
    if isinstance(src, ast.Attribute) and isinstance(src.value, ast.Call) and dotted_of(src.value.func) == "super":
      owners = [c for c in a.p.classes.values() if c.metaclass is not None and (t := a.p.metaclass_of(c.qual)) is not None and t.op == "Cls" and f_cls(f) == t.a[0]]
      res = [option_used(a, a.by_node[c.methods["__init__"]], kw, seen) for c in owners if "__init__" in c.methods and c.methods["__init__"] in a.by_node]
      return any(res) if res else None
  t = None
  try:
    t = a.p.static_expr(f.mod, call.func)
  except Exception:
    pass
  if t is not None and t.op == "Cls" and t.a[0] in a.p.classes:
    hit = a.p.find_method(t.a[0], "__init__")
    mc = a.p.metaclass_of(t.a[0])
    if mc is not None and mc.op == "Cls" and a.p.find_method(mc.a[0], "__call__") is not None:
      c2, m2 = a.p.find_method(mc.a[0], "__call__")
      g = a.by_node.get(m2)
      if g is not None and kw in g.params:
        return option_used(a, g, kw, seen)
    if hit is not None and hit[1] in a.by_node:
      g = a.by_node[hit[1]]
      return option_used(a, g, kw, seen) if kw in g.params else None
    if kw in a.p.dataclass_fields(t.a[0]):
      return attr_read(a, kw, f)
  if t is not None and t.op == "GFn":
    g = a.by_qual.get(t.a[0] + "." + t.a[1])
    if g is not None and kw in g.params:
      return option_used(a, g, kw, seen)
  return None


def f_cls(f):
  while f is not None:
    if f.cls:
      return f.cls
    f = f.parent
  return None


def attr_read(a, attr, f):
  """some code reads the attribute"""
  for g in a.fns:
    for x in g.own():
      if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Load):
        return True
      if isinstance(x, ast.Constant) and x.value == attr:
        return True
      if isinstance(x, ast.Call) and (dotted_of(x.func) or "").split(".")[-1] in ("asdict", "astuple"):
        return True
  return False


OPTION_MODULES = ("nnx.transforms", "nnx.nn.linear", "nnx.nn.normalization", "nnx.nn.stochastic")


def options(p):
  a = aliases(p)
  out = []
  for f in a.fns:
    if f.mod.name not in OPTION_MODULES or f.parent is not None:
      continue
    if f.cls is None and f.name.startswith("_"):
      continue
    if f.cls and f.name not in ("__init__", "__call__"):
      continue
    if f.cls and f.cls.split(".")[-1].startswith("_"):
      continue
    if any((dotted_of(d) or "").split(".")[-1] in ("overload", "abstractmethod") for d in f.node.decorator_list) or f.cls and "Protocol" in " ".join(p.mro(f.cls)):
      continue
    own = f.node.args
    ps = [x.arg for x in own.kwonlyargs] + [x.arg for x in (own.args[len(own.args) - len(own.defaults):] if own.defaults else [])]
    for q in ps:
      ok = option_used(a, f, q, set())
      out.append(("PASS" if ok else "VIOLATION", f"option:{q}", f"{f.mod.rel}:{f.node.lineno} in {f.qual}", "takes effect" if ok else f"option {q} of {f.qual} is accepted and never used"))
  return out


# ------------------------------------------------------------------ keys
def draws(n):
  return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("make_rng",)


CONSUMERS_OK = {"shape", "dtype", "ndim", "key_data"}


def key_linearity(p):
  """a drawn key kept in a local name is given to at most one consumer on every path"""
  a = aliases(p)
  out = []
  for f in a.fns:
    if not (f.mod.name.startswith("nnx.nn") or f.mod.name in ("nnx.transforms", "nnx.helpers")):
      continue
    names = {}
    for n in f.own():
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and draws(n.value):
        names.setdefault(n.targets[0].id, []).append(n)
    if not names:
      continue
    body = f.node.body if isinstance(f.node.body, list) else []
    for k in names:
      worst = count_uses(body, k)
      ok = worst is None
      out.append(("PASS" if ok else "VIOLATION", f"key:{f.qual}.{k}", site(f, names[k][0] if ok else worst), "used once on every path" if ok else f"the key {k} drawn in {f.qual} is consumed more than once on a path"))
  return out


def count_uses(stmts, k):
  """first statement node at which a second use may happen, or None"""

  def expr_uses(e):
    return [n for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Load)] if e is not None else []

  def go(stmts, cnt):
    """-> (max count falling through or None when no path falls through, offending node)"""
    for s in stmts:
      if isinstance(s, ast.If):
        u = expr_uses(s.test)
        cnt += 0  # testing a key for None is no consumption
        c1, b1 = go(s.body, cnt)
        c2, b2 = go(s.orelse, cnt)
        if b1 or b2:
          return None, b1 or b2
        if c1 is None and c2 is None:
          return None, None
        cnt = max(x for x in (c1, c2) if x is not None)
        continue
      if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
        stores = any(isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Store) for x in s.body for n in ast.walk(x))
        uses = [n for x in s.body for n in expr_uses(x)]
        if uses and not stores:
          return None, uses[0]
        continue
      if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        continue
      if isinstance(s, ast.Try):
        c, b = go(s.body, cnt)
        if b:
          return None, b
        for h in s.handlers:
          c2, b2 = go(h.body, cnt if c is None else c)
          if b2:
            return None, b2
          if c2 is not None:
            c = max(c or 0, c2)
        c, b = go(s.orelse + s.finalbody, c if c is not None else cnt)
        if b:
          return None, b
        if c is None:
          return None, None
        cnt = c
        continue
      if isinstance(s, (ast.With, ast.AsyncWith)):
        c, b = go(s.body, cnt)
        if b or c is None:
          return c, b
        cnt = c
        continue
      store = isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Store) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for n in ast.walk(t))
      u = max_uses(s.value if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr, ast.AugAssign)) else s, k)
      if cnt + u > 1:
        return None, s
      cnt = 0 if store else cnt + u
      if isinstance(s, (ast.Return, ast.Raise)):
        return None, None
    return cnt, None

  return go(stmts, 0)[1]


def max_uses(e, k):
  if e is None:
    return 0
  if isinstance(e, ast.IfExp):
    return max(max_uses(e.body, k), max_uses(e.orelse, k))
  if isinstance(e, ast.Name):
    return int(e.id == k and isinstance(e.ctx, ast.Load))
  if isinstance(e, ast.Attribute) and e.attr in CONSUMERS_OK:
    return 0
  if isinstance(e, ast.Compare):
    return 0
  if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
    return 2 * sum(max_uses(x, k) for x in ast.iter_child_nodes(e) if not isinstance(x, ast.comprehension)) + sum(max_uses(g.iter, k) for g in e.generators)
  return sum(max_uses(x, k) for x in ast.iter_child_nodes(e))


# ------------------------------------------------------------------ paths
def path_separator(p):
  """names joined into one path string must not be able to contain the separator"""
  a = aliases(p)
  m = p.modules.get("nnx.module")
  out = []
  if m is None:
    return out
  joins, splits, guards = [], [], []
  for f in a.fns:
    if f.mod is not m:
      continue
    for n in f.own():
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and n.func.attr == "join" and n.func.value.value in ("/", "."):
        joins.append((f, n))
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("split", "rsplit", "partition", "rpartition") and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value in ("/", "."):
        splits.append((f, n))
      elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and n.left.value in ("/", ".") and isinstance(n.ops[0], (ast.In, ast.NotIn)):
        guards.append((f, n))
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "replace" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value in ("/", "."):
        guards.append((f, n))
  if joins and splits and not guards:
    f, n = joins[0]
    out.append(("VIOLATION", "path-separator", site(f, n), "attribute names are joined with '/' and split again, but a name may itself contain '/': such an entry collides with a submodule's path and cannot be merged back"))
  elif joins:
    out.append(("PASS", "path-separator", site(*joins[0]), "names are checked"))
  return out


# ------------------------------------------------------------------ printing
def repr_effects(p):
  a = aliases(p)
  out = []
  for f in a.fns:
    if f.name not in ("__nnx_repr__", "__repr__", "__str__") or f.parent is not None:
      continue
    bad = None
    for l, k, n, held in f.muts:
      if k == "inplace?":
        continue
      if l[0][0] == "P" and l[0][1] == f.qual and l[0][2] < len(f.params):
        bad = bad or (n, f"changes {f.all_params[l[0][2]]}" + "".join("." + x for x in l[1]))
      elif l[0][0] in ("G", "C") and not (l[0][0] == "G" and thread_local(a, value_class(a, l[0][1]))):
        bad = bad or (n, f"changes {name_of(l)}")
    out.append(("VIOLATION" if bad else "PASS", f"repr:{f.qual}", site(f, bad[0] if bad else f.node), f"printing {bad[1]}" if bad else "changes nothing printed or shared"))
  return out


# ------------------------------------------------------------------ assertions
def assert_effects(p):
  """an assert statement never does work the program depends on"""
  a = aliases(p)
  out = []
  for f in a.fns:
    for s in f.own():
      if isinstance(s, ast.Assert):
        bad = next((n for n in ast.walk(s.test) if isinstance(n, ast.NamedExpr) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "append", "add", "update", "remove", "insert", "extend", "clear", "popitem", "setdefault", "discard")), None)
        out.append(("VIOLATION" if bad else "PASS", f"assert:{f.qual}", site(f, s), "the assertion changes state, so the behaviour depends on whether assertions are enabled" if bad else "no effect"))
  return out


def pick(prefixes):
  return lambda p: [r for r in assert_effects(p) if any(r[1][len("assert:"):].startswith(x) for x in prefixes)]


PROPERTIES = {
    "I02": ["shared-state", "lock-discipline"],
    "I01": ["lock-discipline", "identity-counter"],
    "X06": ["option-effect"],
    "R03": ["key-linearity"],
    "R01": ["key-derivation"],
    "M01": ["path-separator", "functional"],
    "Q01": ["repr-effects"],
    "L02": ["assert-effects", "functional"],
}
for _k in FUNCTIONAL:
  PROPERTIES.setdefault(_k, [])
  if "functional" not in PROPERTIES[_k]:
    PROPERTIES[_k].append("functional")

# ------------------------------------------------------------------ derivation of keys
PROCESS_LOCAL = {"hash", "id", "random.random", "time.time", "time.time_ns", "os.getpid", "uuid.uuid4", "builtins.hash"}
DIGESTS = ("hashlib.", "zlib.crc32", "binascii.crc32", "zlib.adler32")


def key_derivation(p):
  """what a drawn key is derived from: the whole split path and counter, in an injective encoding, by a hash every process shares"""
  from .interp import Interp, Raised, view_entries
  from .terms import T, isK, kval, show
  out = []
  cls = next((q for q in p.classes if q.split(".")[-1] == "Context" and "_rngs" in str(ast.dump(p.classes[q].node))), None)
  hit = p.find_method(cls, "make_rng") if cls else None
  if hit is None:
    return [("UNDECIDED", "draw", cls or "?", "no Context.make_rng")]
  i = Interp(p, max_paths=400)
  self_ = T("P", "self")
  i.types[self_] = cls
  at = f"{hit[0].mod.rel}:{hit[1].lineno} in {cls}.make_rng"
  n, by = 0, aliases(p).by_qual
  for s, r in i.run(i.new_state(), i.method_fn(cls, "make_rng"), [self_, T("P", "name")], []):
    if isinstance(r, Raised):
      continue
    n += 1
    v, d = derivation(i, i.reify(s, r))
    lost = [y for q in i.seen_functions if q in by and not q.endswith(".make_rng") for y in ast.walk(by[q].node) if isinstance(y, ast.SetComp) or isinstance(y, ast.Call) and dotted_of(y.func) in ("set", "frozenset")]
    if v == "PASS" and lost:
      v, d = "VIOLATION", "the path is made a set, so its order and repetitions are lost"
    out.append((v, "derivation", at, d))
  return out or [("UNDECIDED", "draw", at, "no path returns a key")]


def derivation(i, t):
  """judges fold_in(key, data)"""
  from .terms import T, isK, kval, show
  if not (t.op == "Ap" and t.a[0].op == "Ext" and t.a[0].a[0] in ("jax.random.fold_in", "jax._src.random.fold_in") and len(t.a[1]) == 2):
    return "UNDECIDED", "the key is not made by fold_in"
  for x in subterms(t):
    if x.op == "Ap" and x.a[0].op == "Ext" and x.a[0].a[0] in PROCESS_LOCAL and (x.a[0].a[0] not in ("hash", "builtins.hash") or any(y.op in ("Join", "Fmt", "Ap") for z in x.a[1] for y in subterms(z))):
      return "VIOLATION", f"the derivation uses {x.a[0].a[0]}(), which differs between processes"
    if x.op == "Hash":
      return "UNDECIDED", "derived by the builtin hash"
  bits, msg = digest(i, t.a[1][1])
  if msg is None:
    return "UNDECIDED", "unknown way of hashing the path"
  if bits is not None and bits < 32:
    return "VIOLATION", f"only {bits} bits of the hash of the path are used, so different draws share a derivation"
  return injective(i, msg)


def subterms(t):
  from .terms import T, Box
  from .interp import view_entries
  stack, seen, boxes = [t], set(), set()
  while stack:
    x = stack.pop()
    if isinstance(x, tuple):
      stack.extend(x)
    elif isinstance(x, T):
      if x not in seen:
        seen.add(x)
        yield x
        stack.extend(x.a)
    elif isinstance(x, Box):
      # the elements a loop adds
      for bp in getattr(x.v, "paths", ()) or ():
        if id(bp) not in boxes:
          boxes.add(id(bp))
          for v in {y.a[1] for y in list(seen) if y.op == "LE" and y.a[0] is x}:
            stack.extend(view_entries(bp, v))
      stack.append(getattr(x.v, "idx", None))


def call_of(t):
  """(dotted name or method name, receiver, args) of an application term"""
  if t.op == "Ap":
    f = t.a[0]
    args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else ()
    if f.op == "Ext":
      return f.a[0], None, args
    if f.op == "At" and isinstance(f.a[1], str):
      return "." + f.a[1], f.a[0], args
  return None, None, ()


def digest(i, t):
  """(bits kept, hashed message)"""
  from .terms import isK, kval
  n, recv, args = call_of(t)
  if t.op == "Slice":
    bits, m = digest(i, t.a[0])
    lo, hi = t.a[1], t.a[2] if len(t.a) > 2 else None
    c = [kval(x) if x is not None and isK(x, int) else 0 if x is None or isK(x) and kval(x) is None else "?" for x in (lo, hi)]
    if m is not None and "?" not in c and isinstance(c[1], int) and c[1] > 0 and c[0] >= 0:
      k = (c[1] - c[0]) * (4 if call_of(t.a[0])[0] == ".hexdigest" else 8)
      bits = k if bits is None else min(k, bits)
    return bits, m
  if t.op == "Op" and t.a[0] in ("%", "&") and len(t.a) == 3 and isK(t.a[2], int):
    bits, m = digest(i, t.a[1])
    v = kval(t.a[2])
    k = (v.bit_length() - 1 if t.a[0] == "%" and v & (v - 1) == 0 else v.bit_length()) if v > 0 else 0
    return (k if bits is None else min(k, bits)), m
  if t.op in ("It", "Item") and len(t.a) == 2:
    return digest(i, t.a[0])
  if n in ("int.from_bytes", "int", "struct.unpack", "jax.numpy.uint32", "numpy.uint32", "abs"):
    for x in args:
      b, m = digest(i, x)
      if m is not None:
        return b, m
    return None, None
  if n in (".digest", ".hexdigest"):
    return digest(i, recv)
  if n is not None and n.startswith(DIGESTS):
    if args:
      m = args[0]
      kw = dict(x for y in t.a[2:] if isinstance(y, tuple) for x in y if isinstance(x, tuple) and len(x) == 2) if len(t.a) > 2 else {}
      size = kw.get("digest_size")
      bits = 32 if "crc32" in n or "adler32" in n else 8 * kval(size) if size is not None and isK(size, int) else None
      return bits, m
  return None, None


ENCODERS = {"str", "repr", "hex", "oct", "bin"}


def pieces(i, t):
  """flattens a text term into literals, encoded integers ('int', source) and repetitions; None when unknown"""
  from .terms import isK, kval
  from .interp import view_entries
  n, recv, args = call_of(t)
  if n in (".encode",):
    return pieces(i, recv)
  if n == "bytes" and args:
    return pieces(i, args[0])
  if isK(t, str):
    return [("lit", kval(t))]
  if t.op == "Fmt":
    out = []
    for x in t.a:
      q = pieces(i, x)
      if q is None:
        return None
      out += q
    return out
  if t.op == "Join":
    if not isK(t.a[0], str):
      return None
    return [("seq", kval(t.a[0]), elements(i, t.a[1]))]
  if t.op in ("Tup", "Seq"):
    return [("lit", "("), ("seq", ", ", elements(i, t)), ("lit", ")")]
  if n in ENCODERS and len(args) == 1:
    x = args[0]
    if x.op in ("Tup", "Seq"):
      return pieces(i, x)
    return [("int", x)]
  if t.op == "Op" and t.a[0] == "%" and isK(t.a[1], str):
    import re
    if re.fullmatch(r"%[dsirx]", kval(t.a[1])) and t.a[2].op not in ("Tup", "Seq"):
      return [("int", t.a[2])]
    return None
  if t.op == "At":
    return [("int", t)]
  if t.op == "Sum" or n in ("sum", "len", "max", "min") or t.op == "Len":
    return [("int", t)]
  return None


def elements(i, t):
  """[(repeated?, element term)] of a sequence"""
  from .interp import view_entries
  xs = t.a if t.op == "Tup" else t.a[1:] if t.op == "Seq" else None
  if xs is None:
    return None
  out = []
  for x in xs:
    if x.op == "LE":
      region, view = x.a[0].v, x.a[1]
      if region.kind != "loop":
        return None
      for bp in region.paths:
        if bp.exit is not None:
          return None
        for y in view_entries(bp, view):
          out.append((True, y))
    elif x.op == "X":
      out.append((True, x.a[0]))
    else:
      out.append((False, x))
  return out


def injective(i, msg):
  from .terms import T, isK, kval, show
  self_rng = lambda x, what: any(y.op == "At" and y.a[1] == what for y in subterms(x))
  for x in subterms(msg):
    if x.op in ("Seq", "New") and x.a[0] in ("set", "frozenset") or call_of(x)[0] in ("set", "frozenset"):
      return "VIOLATION", "the path is made a set, so its order and repetitions are lost"
    if x.op == "Sorted" or call_of(x)[0] == "sorted":
      return "VIOLATION", "the path is sorted, so its order is lost"
  ps = pieces(i, msg)
  if ps is None or any(x[0] == "seq" and x[2] is None for x in ps):
    return "UNDECIDED", "unknown encoding of the path"
  flat = []  # (kind, text or term) in order; a repetition contributes its separator on both sides
  srcs = []
  prev_int, prev_sep = False, True
  for x in ps:
    if x[0] == "lit":
      if any(not c.isdigit() and c != "-" for c in x[1]):
        prev_sep = True
    elif x[0] == "int":
      if not prev_sep:
        return "VIOLATION", "two numbers are written next to each other without a separator, so different paths have the same encoding"
      prev_sep = False
      srcs.append(x[1])
    else:
      sep_ok = any(not c.isdigit() and c != "-" for c in x[1])
      many = len(x[2]) > 1 or any(rep for rep, _ in x[2])
      if not prev_sep or many and not sep_ok:
        return "VIOLATION", "the numbers of the path are joined without a separator, so different paths have the same encoding"
      prev_sep = False
      srcs += [e for _, e in x[2]]
  path = [e for e in srcs if self_rng(e, "count_path")]
  count = [e for e in srcs if self_rng(e, "count")]
  for e in srcs:
    x = e
    n, recv, args = call_of(x)
    while n in ENCODERS and len(args) == 1 or x.op == "Op" and x.a[0] == "%" and isK(x.a[1], str) and len(x.a) == 3:
      x = args[0] if x.op != "Op" else x.a[2]
      n, recv, args = call_of(x)
    if x.op == "Slice" or x.op == "Op" and x.a[0] in ("%", "//", "&", ">>") or x.op in ("Len", "Sum") or n in ("abs", "sum", "max", "min", "len", "bool"):
      return "VIOLATION", "a number of the path is not encoded completely, so different paths have the same encoding"
  if not path:
    whole = any(y.op == "At" and y.a[1] == "count_path" for e in [msg] for y in subterms(e))
    return ("UNDECIDED", "the split path is encoded in an unknown way") if whole else ("VIOLATION", "the split path of the stream is not part of the derivation")
  if not count:
    return "VIOLATION", "the counter of the draw is not part of the derivation"
  return "PASS", "whole split path and counter, separated, by a process-independent hash of at least 32 bits"


RULES = {
    "shared-state": lambda p, pid: shared_state(p),
    "lock-discipline": lambda p, pid: lock_discipline(p),
    "identity-counter": lambda p, pid: identity_counter(p),
    "option-effect": lambda p, pid: options(p),
    "key-linearity": lambda p, pid: key_linearity(p),
    "path-separator": lambda p, pid: path_separator(p),
    "key-derivation": lambda p, pid: key_derivation(p),
    "functional": functional,
    "repr-effects": lambda p, pid: repr_effects(p),
    "assert-effects": lambda p, pid: pick(["nnx.spmd"])(p),
}


def run_rules(program, pid, tier="quick"):
  out = []
  for name in PROPERTIES.get(pid, []):
    try:
      rs = RULES[name](program, pid)
    except RecursionError as e:
      out.append(Result(name, "UNDECIDED", rule=name, detail=f"{type(e).__name__}: {e}"))
      continue
    except Exception as e:
      out.append(Result(name, "UNDECIDED", rule=name, detail=f"{type(e).__name__}: {e}"))
      continue
    good = [r for r in rs if r[0] == "PASS"]
    bad = {}
    for r in rs:
      if r[0] == "UNDECIDED":
        out.append(Result(name + ":" + r[1], "UNDECIDED", rule=name, detail=f"{r[2]}: {r[3]}"))
      elif r[0] != "PASS":
        bad.setdefault(r[1], []).append(r)
    for k, v in bad.items():
      out.append(Result(name + ":" + k, "VIOLATION", rule=name, key=k, site=v[0][2], detail="\n".join(f"{x[2]}: {x[3]}" for x in v)))
    out.append(Result(name, "PASS", rule=name, stats={"sites": len(good), "checked": [f"{r[2]}: {r[1]}: {r[3]}" for r in good]}))
  return out
