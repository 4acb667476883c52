#!/usr/bin/python3
"""Debugging aid: run reference obligations (optionally filtered by name or property) and print verdicts."""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from sa.obligation import *
o = Obligations(os.environ.get("REPO", "/repo"))
pats = sys.argv[1:]
cnt = collections.Counter()
full = int(os.environ.get("W", "220"))
for it in o.items:
  if not pats or any(p in it[1] or p in it[4].get("property", "").split() for p in pats):
    try:
      r = o.run(it)
    except Exception as e:
      if os.environ.get("TB"): raise
      print(f"CRASH      {it[1]} {type(e).__name__} {str(e)[:200]}"); cnt["CRASH"] += 1; continue
    cnt[r.verdict] += 1
    if r.verdict == "PASS" and not os.environ.get("ALL"): continue
    print(f"{r.verdict:10s} {it[4].get('property'):8s} {it[1]:40s} {r.stats.get('impl_paths')}x{r.stats.get('spec_paths')} {r.stats['wall']:.2f}s {sorted(map(str, getattr(r,'flags',()))) or ''}")
    if r.verdict != "PASS":
      for l in r.detail.splitlines(): print("    " + l[:full])
print(dict(cnt))
