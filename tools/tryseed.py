#!/usr/bin/env python3
"""Runs the quick check of a planted bug's property on a patched scratch copy: tryseed.py id ... [--prop PXX] [--tier quick]"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = "/tmp/seedscratch/try"
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if not os.path.exists(repo):
    os.makedirs(os.path.dirname(repo), exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", repo])
subprocess.call("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", cwd=repo, shell=True)
ids = ids or sorted(os.listdir(VERIF + "/seeded"))
for i in ids:
    subprocess.check_call("git checkout -q -- .", cwd=repo, shell=True)
    d = f"{VERIF}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.call(["git", "apply", d + "/patch.diff"], cwd=repo): print(i, "DOES NOT APPLY"); continue
    t = time.time()
    r = subprocess.run(["/tmp/symgo", "-verif", VERIF, "-repo", repo, "-prop", prop, "-noevidence"], capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", (v or [r.stdout[-300:] + r.stderr[-300:]])[0], flush=True)
subprocess.check_call("git checkout -q -- .", cwd=repo, shell=True)
