#!/usr/bin/python3
"""Confirms planted bugs in a scratch copy and keeps the confirmed ones under /verif/seeded.

plant.py SPEC.py [ids…]: SPEC defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new[, nth])], demo.
For each: the patch applies to a scratch copy of /repo, everything compiles, the 89 stable tests pass, the demo
passes without and fails with the patch, and every removed line is the original repository's."""
import json, os, re, shutil, subprocess, sys, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
ENV = {**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}

def sh(cmd, cwd, env=ENV, t=600):
  return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)

def fresh():
  shutil.rmtree(S + "/repo", ignore_errors=True)
  os.makedirs(S, exist_ok=True)
  subprocess.run(["git", "clone", "-q", "/repo", S + "/repo"], check=True)

DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
'''

def main():
  bugs = runpy.run_path(sys.argv[1])["BUGS"]
  only = sys.argv[2:]
  stable = json.load(open("/opt/vp/BASELINE.json"))
  fresh()
  R = S + "/repo"
  for b in bugs:
    if only and b["id"] not in only: continue
    out = os.path.join(H, "seeded", b["id"])
    if os.path.exists(out) and not only:
      continue
    sh("git checkout -q -- .", R)
    bad = None
    for e in b["edits"]:
      f, old, new = e[:3]
      p = os.path.join(R, f)
      src = open(p).read()
      n = src.count(old)
      nth = e[3] if len(e) > 3 else 0
      if n == 0 or (n > 1 and len(e) < 4):
        bad = f"{f}: {n} occurrences of {old[:60]!r}"; break
      i = -1
      for _ in range(nth + 1): i = src.index(old, i + 1)
      open(p, "w").write(src[:i] + new + src[i + len(old):])
    if bad:
      print(b["id"], "EDIT", bad); continue
    diff = sh("git diff", R).stdout
    # removed lines must be of the base
    for f in {e[0] for e in b["edits"]}:
      d = sh(f"git diff -U0 {f}", R).stdout
      for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", d, re.M):
        a, k = int(m[1]), int(m[2] or 1)
        if k:
          bl = sh(f"git blame -s -L {a},{a+k-1} HEAD -- {f}", R).stdout
          base = sh("git log --format=%H --reverse | head -1", R).stdout[:7]
          for l in bl.splitlines():
            if not l.lstrip("^").startswith(base[:7]):
              bad = "NOT-BASE " + l[:100]
    if bad:
      print(b["id"], bad); continue
    D = S + "/demo"
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    open(D + "/demo.sh", "w").write(DEMO_SH); os.chmod(D + "/demo.sh", 0o755)
    open(D + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    patched = sh(f"bash {D}/demo.sh", R, t=300)
    tests = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests --timeout=300 -x -q --junitxml=/tmp/plant/j.xml", R)
    sh("git checkout -q -- .", R)
    clean = sh(f"bash {D}/demo.sh", R, t=300)
    tail = (patched.stdout + patched.stderr).strip().splitlines()[-1:] 
    ok = clean.returncode == 0 and patched.returncode != 0 and tests.returncode == 0
    if not ok:
      print(b["id"], "REJECTED clean", clean.returncode, "patched", patched.returncode, "tests", tests.returncode, (clean.stderr.strip().splitlines() or [""])[-1][:150], "|", [l for l in tests.stdout.splitlines() if l.startswith("FAILED")][:2])
      continue
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for f in ("demo.sh", "demo.py"): shutil.copy(D + "/" + f, out)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print(b["id"], "KEPT", tail)
main()
