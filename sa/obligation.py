"""Runs reference obligations: the summary of a driver over the repository must agree with the summary of its reference definition."""
import ast
import os
import signal
import time

from .equiv import Canon, Compare, Mismatch, TooComplex, assertion, drop_empty
from .interp import Budget, Interp, Raised, Unsupported, events_of
from .program import Program
from .terms import *


class Result:

  def __init__(self, name, verdict, **k):
    self.name, self.verdict = name, verdict  # PASS / VIOLATION / UNDECIDED
    self.detail = k.pop("detail", "")
    self.stats = k.pop("stats", {})
    self.rule = k.pop("rule", "reference-summary")
    self.key = k.pop("key", name)
    self.site = k.pop("site", None)
    self.__dict__.update(k)

  def where(self):
    return self.site or "?"


GROUPS = {
    "@split": ["nnx.module._get_module_def", "nnx.module._get_module_state", "nnx.tracers.get_top_trace"],
    "@predicates": ["nnx.partitioning.to_predicate", "nnx.contextlib.to_rng_predicate"],
    "@rebuild": ["nnx.module.ModuleDef.merge", "nnx.module._build_module", "nnx.module._update_module", "nnx.contextlib.ContextDef.merge", "nnx.contextlib.Context.partition"],
}


def meta(fn):
  d = ast.get_docstring(fn) or ""
  m = {"opaque": [], "pure_results": [], "opaque_rec": [], "pure": []}
  for line in d.splitlines():
    if ":" in line:
      k, v = line.split(":", 1)
      k, v = k.strip(), v.strip()
      if k in ("opaque", "pure_results", "opaque_rec", "pure"):
        for x in v.split():
          m[k] += GROUPS.get(x, [x])
      else:
        m[k] = v
  return m


class Obligations:

  def __init__(self, root="/repo", spec_dir=None):
    spec_dir = spec_dir or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    self.files = sorted(f for f in os.listdir(spec_dir) if f.endswith(".py"))
    self.root, self.spec_dir = root, spec_dir
    self.reload()
    self.find()

  def reload(self):
    root, spec_dir = self.root, self.spec_dir
    self.p = Program(root, "nnx", [("spec_" + f[:-3], os.path.join(spec_dir, f)) for f in self.files])

  def find(self):
    self.items = []
    for f in self.files:
      mod = "spec_" + f[:-3]
      fns = {n.name: n for n in self.p.modules[mod].tree.body if isinstance(n, ast.FunctionDef)}
      for n, node in fns.items():
        if n.endswith("__impl"):
          base = n[:-6]
          m = meta(node)
          self.items.append((mod, base, node, fns.get(base + "__spec"), m))

  def of(self, pid):
    return [it for it in self.items if pid in it[4].get("property", "").split()]

  def interp(self, m):
    i = Interp(self.p, opaque=m["opaque"] + m["pure"], max_paths=int(m.get("max_paths", 3000)))
    i.hooks["pure_results"] = {"repo:" + q for q in m["pure_results"]}
    i.hooks["never_none"] = {x for n in m.get("never_none", "").split() for x in (n, K(n))}
    i.hooks["arrays"] = set(m.get("arrays", "").split())
    st = self.p.public("nnx.State")
    i.hooks["construct"] = {t.a[0] for t in (self.p.public(x) for x in m.get("construct", "").split()) if t is not None and t.op == "Cls"}
    i.hooks["concrete"] = {t.a[0] for t in (self.p.public(x) for x in m.get("concrete", "").split()) if t is not None and t.op == "Cls"}
    i.hooks["sorted_classes"] = {st.a[0]} if st is not None and st.op == "Cls" else set()
    return i

  def args(self, i, mod, node):
    args, kws = [], []
    a = node.args

    def sym(x):
      t = T("P", x.arg)
      if x.annotation is not None:
        c = self.p.static_expr(self.p.modules[mod], x.annotation)
        if c is not None and c.op == "Cls":
          i.types[t] = c.a[0]
        elif isinstance(x.annotation, ast.Subscript) and isinstance(x.annotation.value, ast.Name) and x.annotation.value.id in ("dict", "list", "tuple"):
          i.types[t] = x.annotation.value.id
          item = self.p.annotated(self.p.modules[mod], x.annotation)[1]
          if item is not None:
            i.item_types[t] = item
        elif isinstance(x.annotation, ast.Name) and x.annotation.id in ("dict", "list", "tuple", "str", "int"):
          i.types[t] = x.annotation.id
        elif isinstance(x.annotation, ast.Name) and x.annotation.id == "Mapping":
          i.hooks.setdefault("mappings", set()).add(t)
      return t

    for x in a.posonlyargs + a.args:
      args.append(sym(x))
    if a.vararg:
      args.append(X(T("P", a.vararg.arg)))
    for x in a.kwonlyargs:
      kws.append((x.arg, sym(x)))
    if a.kwarg:
      i.types[T("P", a.kwarg.arg)] = "dict"
      kws.append((None, T("P", a.kwarg.arg)))
    return args, kws

  def summarise(self, i, mod, node, sig):
    st = i.new_state()
    if meta(sig).get("raising"):
      st.tries = ("all", None)
    f = i.global_fn(mod, node.name)
    args, kws = self.args(i, mod, sig)
    return i.run(st, f, args, kws)

  def run(self, it):
    mod, base, impl, spec, m = it
    t0 = time.time()
    lost = self.vocabulary(mod, impl, spec)
    if lost:
      return Result(base, "UNDECIDED", detail="the reference uses names the tree no longer has: " + ", ".join(sorted(lost)), stats={"wall": 0})
    i = self.interp(m)
    try:
      i.hooks["opaque_rec"] = set(m["opaque_rec"])
      i.hooks["pure"] = set(m["pure"])
      ri = self.summarise(i, mod, impl, impl)
      i.hooks["opaque_rec"] = set()
      i.opaque = set(i.opaque) | set(m["opaque_rec"])
      seen = set(i.seen_functions)
      rs = self.summarise(i, mod, spec, impl)
      c = Canon(i)
      A, B = c.paths(ri), c.paths(rs)
      cmp = Compare(c)
      from .facts import Facts
      mis = cmp.rows(A, B, Facts(i.th), lambda x, y, F: self.leaf(cmp, x, y, F))
    except (Unsupported, Budget, TooComplex, RecursionError) as e:
      return Result(base, "UNDECIDED", detail=f"{type(e).__name__}: {e}", stats={"wall": time.time() - t0})
    stats = {"impl_paths": len(A), "spec_paths": len(B), "pairs": cmp.pairs, "functions": sorted(seen), "calls": len(i.seen_calls), "wall": time.time() - t0}
    if not A or not B:
      return Result(base, "UNDECIDED", detail="no feasible path", stats=stats)
    flags = {g for s, _ in ri + rs for g in s.flags}
    if mis is None:
      return Result(base, "PASS", stats=stats, flags=flags)
    return Result(base, "UNDECIDED" if flags else "VIOLATION", mis=mis, stats=stats, flags=flags, detail=explain(mis), site=self.locate(m, mis))

  def locate(self, m, mis):
    """file:line function of the construct: the innermost site of the code's path, or the anchor of the obligation."""
    anchor = m.get("anchor", "?")
    if ":" in anchor:
      modname, qual = anchor.split(":")[:2]
      mod = self.p.modules.get(modname)
      if mod is not None:
        node = find_def(mod.tree, qual.split(".")[-1], qual.split("."))
        if node is not None:
          return f"{mod.rel}:{node.lineno} {qual}"
    return anchor

  def vocabulary(self, mod, *fns):
    """Private or imported names the reference relies on that do not occur in the tree."""
    if not hasattr(self, "words"):
      import re
      self.words = set()
      for m in self.p.modules.values():
        if not m.name.startswith("spec_"):
          self.words |= set(re.findall(r"\w+", m.src))
    tree = self.p.modules[mod].tree
    local = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    imported = {}
    for n in tree.body:
      if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] == "nnx":
        for a in n.names:
          imported[a.asname or a.name] = (n.module, a.name)
    todo, seen, lost = list(fns), set(), set()
    while todo:
      fn = todo.pop()
      if fn is None or fn.name in seen:
        continue
      seen.add(fn.name)
      prefixes = {id(a) for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("startswith", "endswith") for a in x.args}
      for x in ast.walk(fn):
        if id(x) in prefixes:
          continue
        if isinstance(x, ast.Name):
          if x.id in local:
            todo.append(local[x.id])
          elif x.id in imported and self.p.member(*imported[x.id]) is None:
            lost.add(x.id)
        w = x.attr if isinstance(x, ast.Attribute) else x.value if isinstance(x, ast.Constant) and isinstance(x.value, str) else None
        if w and w.startswith("_") and w.isidentifier() and w not in self.words and not (w.startswith("__") and w.endswith("__")):
          lost.add(w)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "nnx" and self.p.public("nnx." + x.attr) is None:
          lost.add("nnx." + x.attr)
    return lost

  def leaf(self, cmp, x, y, F):
    m = cmp.eq(x[1], y[1], F)
    if m is not None:
      a, b = drop_empty(cmp.c, x[1], F), drop_empty(cmp.c, y[1], F)
      if a is not x[1] or b is not y[1]:
        m = cmp.eq(a, b, F)
    if m is not None and not hasattr(m, "rowa"):
      m.rowa, m.rowb = x, y
    return m


def explain(m):
  lines = ["when " + (" and ".join(lit(a, v) for a, v in m.facts.items()) or "always")]
  lines.append("  code:     " + clip(show(m.a)))
  lines.append("  expected: " + clip(show(m.b)))
  if hasattr(m, "rowa"):
    lines.append("  code outcome:     " + clip(show(m.rowa[1])))
    lines.append("  expected outcome: " + clip(show(m.rowb[1])))
  return "\n".join(lines)


def lit(a, v):
  return show_fact(a, v)


def clip(s, n=600):
  return s if len(s) <= n else s[: n - 1] + "…"


def find_def(tree, last, parts):
  cur = tree
  for p in parts:
    nxt = None
    for n in ast.walk(cur):
      if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p and n is not cur:
        nxt = n
        break
    if nxt is None:
      return None if cur is tree else cur
    cur = nxt
  return cur


class OutOfTime(BaseException):
  pass


def _out_of_time(*_):
  raise OutOfTime()


def run_safely(o, it, tier="quick", limit=None):
  """One obligation; limit bounds its seconds (no verdict when they run out)."""
  t0 = time.time()
  try:
    if limit is not None:
      signal.signal(signal.SIGALRM, _out_of_time)
      signal.setitimer(signal.ITIMER_REAL, max(limit, 0.01))
    try:
      return o.run(it)
    finally:
      if limit is not None:
        signal.setitimer(signal.ITIMER_REAL, 0)
  except OutOfTime:
    o.reload()
    return Result(it[1], "UNDECIDED", detail=f"no answer within {limit:.0f} s", stats={"wall": time.time() - t0})
  except MemoryError:
    o.reload()
    return Result(it[1], "UNDECIDED", detail="out of memory", stats={"wall": time.time() - t0})
  except Exception as e:  # the analysis met something it does not understand: no verdict
    return Result(it[1], "UNDECIDED", detail=f"{type(e).__name__}: {e}", stats={"wall": time.time() - t0})
