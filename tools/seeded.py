#!/usr/bin/python3
"""Runs each planted bug's own property check against a scratch copy of /repo with the bug; prints what catches it."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedrun/repo"
ids = sys.argv[1:] or sorted(os.listdir(H + "/seeded"))
RES = H + "/tools/design/seeded_results.json"
res = json.load(open(RES)) if os.path.exists(RES) else {}
shutil.rmtree("/tmp/seedrun", ignore_errors=True)
os.makedirs("/tmp/seedrun")
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
for b in ids:
  d = f"{H}/seeded/{b}"
  if not os.path.exists(d + "/meta.json"): continue
  prop = json.load(open(d + "/meta.json"))["property"]
  subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
  a = subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], capture_output=True, text=True)
  if a.returncode: print(b, "DOES NOT APPLY", a.stderr[:200]); continue
  r = subprocess.run([sys.executable, "check.py", prop], cwd=H, env={**os.environ, "NNX_REPO": R}, capture_output=True, text=True)
  v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
  ev = json.load(open(f"{H}/evidence/{prop}.json"))["coverage"]["samples"]
  names = [f"{s['obligation']}" for s in ev if s["verdict"] == "VIOLATION"]
  und = [f"{s['obligation']}" for s in ev if s["verdict"] == "UNDECIDED"]
  print(f"{b:28s} {prop} {'CAUGHT' if r.returncode == 1 and v else 'missed'} rc={r.returncode} by={names[:6]} undecided={und[:6]}")
  res[b] = ("caught by " + ", ".join(f"`{n}`" for n in names[:4])) if r.returncode == 1 and v else "missed"
res = {k: v for k, v in sorted(res.items()) if os.path.isdir(f"{H}/seeded/{k}")}
open(RES, "w").write(json.dumps(res, indent=1) + "\n")
shutil.rmtree("/tmp/seedrun", ignore_errors=True)
