#!/usr/bin/env python3
"""seedrun.py [id..]: runs the quick check of each planted bug's property against it (in /repo, undone afterwards)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    assert not subprocess.run(["git", "-C", "/repo", "status", "--short", "-uno"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "run.py", meta["property"], "--tier", "quick"], cwd=V, capture_output=True, text=True, timeout=900)
        hit = p.returncode == 1 and "VIOLATION property=%s " % meta["property"] in p.stdout
        print(i, meta["property"], "CAUGHT" if hit else "MISSED rc=%d" % p.returncode, "%.0f s" % (time.time() - t), "" if hit else p.stderr[-300:], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
