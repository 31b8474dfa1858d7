#!/usr/bin/env python3
"""Runs the check of each planted bug against a scratch copy with the bug applied.
detect.py [ID...]; prints caught or MISSED. Not part of any check."""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded") + os.listdir(ROOT + "/planted_c"))
for i in ids:
    d = ROOT + "/seeded/" + i
    if not os.path.exists(d):
        d = ROOT + "/planted_c/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="detect")
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout, flush=True)
            continue
        t = time.time()
        env = dict(os.environ, DRO_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = subprocess.run([sys.executable, ROOT + "/run.py", prop], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
        why = [l for l in r.stdout.splitlines() if l.strip()][-4:]
        print(i, prop, "caught" if hit else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), "" if hit else " | ".join(why)[-600:], flush=True)
    finally:
        shutil.rmtree(w)
