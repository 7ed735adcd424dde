#!/usr/bin/env python3
"""Runs each planted bug's property check against it (in a scratch copy of /repo). Usage: runseeds.py [-t] [id ...]"""
import sys, os, subprocess, json, shutil
V = "/verif"; a = sys.argv[1:]; tier = "quick"
if a[:1] == ["-t"]: tier = "thorough"; a = a[1:]
W = f"/tmp/seedrun{os.getpid()}"
for id in sorted(a or os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{id}"
    if not os.path.exists(d + "/patch.diff"): continue
    prop = json.load(open(d + "/meta.json"))["property"]; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {W} && cd {W} && git init -q . && git apply {d}/patch.diff", shell=True, check=True)
    r = subprocess.run([sys.executable, V + "/check.py", prop, tier], env=dict(os.environ, SX_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(id, prop, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"MISSED rc={r.returncode} {r.stdout[-600:]}", flush=True)
shutil.rmtree(W, ignore_errors=True)
