"""Debugging aid: summarise every function of the package; report failures, path counts, flags and times."""
import os, sys, time, traceback, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from sa.program import Program
from sa.interp import *
from sa.terms import *
p = Program(os.environ.get("REPO", "/repo"), "nnx")
N = int(os.environ.get("N", "-1"))
for c in p.all_functions():
  pass
fl = collections.Counter()
tot = time.time()
for mod, m in p.modules.items():
  for name, node in list(m.functions.items()) if hasattr(m, "functions") else []:
    pass
def go(label, getter):
  i = Interp(p, max_paths=600)
  st = i.new_state()
  t0 = time.time()
  try:
    f, cls = getter(i)
    if f is None or f.op != "Fn": return
    c = i.clos[f.a[0]]
    a = c.node.args
    args, kws = [], []
    for k, x in enumerate(a.posonlyargs + a.args):
      t = T("P", x.arg)
      if k == 0 and cls: i.types[t] = cls
      args.append(t)
    if a.vararg:
      if N < 0: args.append(X(T("P", a.vararg.arg)))
      else: args += [T("P", f"{a.vararg.arg}{k}") for k in range(N)]
    for x in a.kwonlyargs: kws.append((x.arg, T("P", x.arg)))
    if a.kwarg: kws.append((None, T("P", a.kwarg.arg)))
    res = i.run(st, f, args, kws)
    flags = {g for s, r in res for g in s.flags}
    fl.update(flags)
    for s, r in res:
      show(i.reify(s, r)) if not isinstance(r, Raised) else 0
      i.event_views(events_of(s.trail))
    dt = time.time() - t0
    print(f"{label:60s} {len(res):4d} paths {dt:6.2f}s {sorted(map(str,flags)) or ''}")
  except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)[-1]
    print(f"{label:60s} FAIL {type(e).__name__}: {str(e)[:150]} @{tb.filename.split('/')[-1]}:{tb.lineno} {time.time()-t0:.1f}s")
pat = sys.argv[1] if len(sys.argv) > 1 else ""
import ast
for mod, m in p.modules.items():
  for s in ast.walk(m.tree) if hasattr(m, "tree") else []:
    pass
  for n in m.tree.body:
    if isinstance(n, ast.FunctionDef) and pat in f"{mod}.{n.name}": go(f"{mod}:{n.name}", lambda i: (i.global_fn(mod, n.name), None))
    if isinstance(n, ast.ClassDef):
      for k in n.body:
        if isinstance(k, ast.FunctionDef) and pat in f"{mod}.{n.name}.{k.name}": go(f"{mod}:{n.name}.{k.name}", lambda i: (i.method_fn(f"{mod}.{n.name}", k.name), f"{mod}.{n.name}"))
print(fl, time.time()-tot)
