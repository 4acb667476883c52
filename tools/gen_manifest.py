#!/usr/bin/python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from sa.obligation import Obligations
from sa.rules import PROPERTIES
o = Obligations("/repo")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
checks = []
na = []
for p in props:
  pid = p["id"]
  n = [it[1] for it in o.of(pid)]
  r = PROPERTIES.get(pid, [])
  if (not n and not r) or pid in NA:
    na.append({"property": pid, "reason": NA.get(pid, "not claimed yet")})
    continue
  tech = []
  if n:
    tech.append("interprocedural value-flow and effect summaries compared with reference summaries")
  if r:
    tech.append("source rules: " + ", ".join(r))
  checks.append({
      "property": pid,
      "quick_cmd": f"python3 check.py {pid}",
      "thorough_cmd": f"python3 check.py {pid} --thorough",
      "technique": "static analysis: " + "; ".join(tech),
      "level": "other",
      "level_note": "Decided from the source for all inputs the abstract domain describes (loops and recursions by one generic "
      "iteration, unknown objects by provenance); external library calls are uninterpreted and assertions are assumed. "
      "Constructs the analysis cannot compare are reported as undecided in the evidence, not as violations.",
  })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
  "notes": "python3 standard library only; nothing of /repo is imported or executed."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
