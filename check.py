#!/usr/bin/python3
"""check.py <property>: decides one property of /repo's current source. Exit 0 held, 1 violated."""
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)


def known():
  out = {}
  path = os.path.join(HERE, "known_findings.txt")
  for line in open(path):
    if line.startswith("finding:"):
      head, _, text = line[len("finding:") :].strip().partition(" :: ")
      f = dict(x.split("=", 1) for x in head.split(" "))
      out[(f["property"], f["key"])] = text.strip()
  return out


def main():
  pid = sys.argv[1]
  tier = os.environ.get("VERIF_TIER", "quick")
  if "--thorough" in sys.argv:
    tier = "thorough"
  root = os.environ.get("NNX_REPO", "/repo")
  t0 = time.time()
  resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
  from sa.obligation import Obligations, run_safely
  from sa.rules import run_rules
  o = Obligations(root)
  results = []
  for it in o.of(pid):
    left = (2400 if tier == "thorough" else 600) - (time.time() - t0)
    results.append(run_safely(o, it, tier, min(left, 120)))
  results += run_rules(o.p, pid, tier)
  kf = known()
  bad, found = [], []
  for r in results:
    if r.verdict == "VIOLATION":
      k = (pid, r.key)
      if k in kf:
        found.append((k, kf[k]))
        r.verdict = "KNOWN"
      else:
        bad.append(r)
  for (p, k), text in found:
    print(f"KNOWN-FINDING: property={p} {k}: {text}")
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  counts = {v: sum(r.verdict == v for r in results) for v in ("PASS", "VIOLATION", "KNOWN", "UNDECIDED")}
  fns = sorted({f for r in results for f in r.stats.get("functions", ())})
  prefixes = ("spec_",)
  fns = [f for f in fns if not f.startswith(prefixes)]
  ev = {
      "property": pid,
      "tier": tier,
      "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
      "level": "other",
      "coverage": {
          "explanation": "Static analysis of the source in " + root + "; no code of the repository is executed. Each obligation "
          "compares the interprocedural path summary (provenance terms, effects, exceptions, loop and recursion summaries) of a "
          "driver with that of its reference definition, or checks a rule at every matching construct.",
          "obligations_checked": len(results),
          "obligations_by_verdict": counts,
          "code_paths": sum(r.stats.get("impl_paths", 0) or 0 for r in results),
          "path_pairs_compared": sum(r.stats.get("pairs", 0) or 0 for r in results),
          "constructs_checked": sum(r.stats.get("sites", 0) or 0 for r in results),
          "functions_analysed": fns,
          "samples": [
              {
                  "obligation": r.name,
                  "rule": r.rule,
                  "verdict": r.verdict,
                  "paths": r.stats.get("impl_paths"),
                  "sites": r.stats.get("sites"),
                  **({"detail": r.detail[:1500]} if r.verdict != "PASS" else {}),
                  **({"checked": r.stats["checked"][:40]} if r.stats.get("checked") else {}),
              }
              for r in results
          ],
      },
      "assumptions": [
          "assert conditions hold; KeyError, IndexError and AttributeError not caught in the code itself are not modelled",
          "methods of abstract parameters behave as those of the declared class; external library calls are uninterpreted functions of their arguments",
      ],
      "wall_s": round(time.time() - t0, 3),
      "violations": len(bad),
  }
  json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
  if bad:
    rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
    with open(rp, "w") as f:
      for r in bad:
        f.write(f"{r.rule}: {r.name} ({r.where()})\n{r.detail}\n\n")
    for r in bad:
      print(f"{r.rule}: {r.name} at {r.where()}")
      for l in r.detail.splitlines()[:12]:
        print("  " + l[:600])
    print(f"VIOLATION property={pid} replay={rp}")
    return 1
  print(f"property={pid} held: {counts} in {time.time() - t0:.2f}s")
  return 0


if __name__ == "__main__":
  sys.exit(main())
