#!/usr/bin/env python3
"""Development aid: run the check of each planted bug's property against the planted bug.

    sweep.py [bug id ...]      (makes scratch clones under /tmp/sd, removes them afterwards)
    sweep.py --check C05 id    run another property's check against the bug
"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
over = None
tier = "quick"
while args and args[0].startswith("--"):
    o = args.pop(0)
    if o == "--check":
        over = args.pop(0)
    elif o == "--tier":
        tier = args.pop(0)
for i in args or sorted(os.listdir(ROOT + "/seeded")):
    d = os.path.join(ROOT, "seeded", i)
    w = "/tmp/sd/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
    pid = over or json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    r = subprocess.run([sys.executable, ROOT + "/bin/check.py", pid, tier], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-16s %s %s rc=%d %.0fs %s" % (i, pid, "caught" if r.returncode == 1 and lines else "MISSED", r.returncode, time.time() - t,
                                        (lines or r.stdout.splitlines()[-1:] or [r.stderr[-200:]])[0][:150]), flush=True)
    shutil.rmtree(w)
