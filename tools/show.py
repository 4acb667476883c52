#!/usr/bin/python3
"""Debugging aid: print the path summary of a function of the repository (usage: show.py nnx.state:State.merge [param=class ...])."""
import os, sys, time, ast
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from sa.program import Program
from sa.interp import *
from sa.terms import *

def main():
  p = Program(os.environ.get("REPO", "/repo"), "nnx", [(os.path.splitext(os.path.basename(x))[0], x) for x in os.environ.get("EXTRA", "").split(":") if x])
  mod, q = sys.argv[1].split(":")
  typs = dict(a.split("=", 1) for a in sys.argv[2:] if "=" in a)
  i = Interp(p)
  st = i.new_state()
  parts = q.split(".")
  if len(parts) == 2:
    f = i.method_fn(f"{mod}.{parts[0]}", parts[1])
    typs.setdefault("self", f"{mod}.{parts[0]}")
  else:
    f = i.global_fn(mod, q)
  c = i.clos[f.a[0]]
  a = c.node.args
  args, kws = [], []
  for x in a.posonlyargs + a.args:
    t = T("P", x.arg)
    if x.arg in typs: i.types[t] = typs[x.arg]
    args.append(t)
  if a.vararg:
    n = int(os.environ.get("N", "-1"))
    if n < 0: args.append(X(T("P", a.vararg.arg)))
    else: args += [T("P", f"{a.vararg.arg}{k}") for k in range(n)]
  for x in a.kwonlyargs: kws.append((x.arg, T("P", x.arg)))
  if a.kwarg: kws.append((None, T("P", a.kwarg.arg)))
  t0 = time.time()
  res = i.run(st, f, args, kws)
  print(f"{len(res)} paths, {time.time()-t0:.2f}s")
  for s, r in res:
    print("=" * 8, " & ".join(show_fact(k, v) for k, v in s.facts.items()))
    if s.flags: print("  FLAGS", s.flags)
    for e in events_of(s.trail):
      print("   .", e[0], *(show(x) if isinstance(x, (T, tuple)) else (f"<region {x.kind}>" if isinstance(x, Region) else x) for x in e[1:]))
    vs = i.event_views(events_of(s.trail))
    for k, v in vs.items():
      print("   >", show(k), ":=", "; ".join(show(x) for x in v))
    if isinstance(r, Raised): print("   RAISES", show(r.exc), r.site)
    else: print("   RETURNS", show(i.reify(s, r)))
main()
