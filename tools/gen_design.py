#!/usr/bin/python3
"""Writes DESIGN.md from tools/design/*.md, the registered obligations and rules, seeded/ and known_findings.txt."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
from sa.obligation import Obligations, meta
from sa import rules

D = os.path.join(H, "tools", "design")
read = lambda n: open(os.path.join(D, n)).read().strip() + "\n"


def plans():
  out, cur = {}, None
  for l in read("plans.md").splitlines():
    if l.startswith("## "):
      cur = l[3:].strip()
      out[cur] = []
    elif cur:
      out[cur].append(l)
  return {k: "\n".join(v).strip() for k, v in out.items()}


def main():
  o = Obligations("/repo")
  na = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
  pl = plans()
  out = [read("head.md"), "## Properties: how each is decided\n"]
  for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    out.append(f"### {pid} {p['title']}\n")
    if pid in na:
      out.append(f"Not applicable: {na[pid]}.\n")
      continue
    out.append(pl.get(pid, "(plan missing)") + "\n")
    obs = []
    for it in o.of(pid):
      a = it[4].get("anchor") if isinstance(it[4], dict) else None
      a = a[0] if isinstance(a, list) and a else a
      obs.append(f"`{it[1]}`" + (f" ({a})" if a else ""))
    if obs:
      out.append(f"Obligations ({len(obs)}): " + ", ".join(obs) + ".\n")
    rs = rules.PROPERTIES.get(pid, [])
    if rs:
      out.append("Rules: " + ", ".join(f"`{r}`" for r in rs) + ".\n")
  out.append(read("rules.md"))
  out.append("## Planted bugs (seeded/)\n")
  res = {}
  rp = os.path.join(D, "seeded_results.json")
  if os.path.exists(rp):
    res = json.load(open(rp))
  out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
  S = os.path.join(H, "seeded")
  for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
  out.append("")
  out.append("## Defects found in nnx\n")
  for l in open(os.path.join(H, "known_findings.txt")):
    if l.startswith(("fixed:", "finding:")):
      out.append("- " + l.strip())
  out.append("")
  out.append(read("tail.md"))
  open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))


if __name__ == "__main__":
  main()
