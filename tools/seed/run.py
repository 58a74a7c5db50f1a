#!/usr/bin/env python3
"""run.py [ID...]: applies each planted change to /repo, runs the check of its property, undoes it."""
import json, os, subprocess, sys, time
os.chdir("/verif")
ids = sys.argv[1:] or sorted(os.listdir("seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
    t = time.time()
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        r = subprocess.run(["python3", "check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=%s " % prop)]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), v[:1], flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:])
