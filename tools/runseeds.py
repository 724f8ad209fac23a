#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy with the bug.  usage: runseeds.py [--all-checks] [ID...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    if args and i not in args: continue
    prop = json.load(open(d + "meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="rs-")
    try:
        shutil.copytree("/repo/src", t + "/src"); shutil.copytree("/repo/3rdparty", t + "/3rdparty")
        a = subprocess.run(["patch", "-p1", "-s", "-i", d + "patch.diff"], cwd=t)
        props = [prop] if "--all-checks" not in sys.argv else ["C%02d" % k for k in range(1, 26)]
        for p in props:
            s = time.time()
            r = subprocess.run(["timeout", "900", "python3", V + "/check.py", p, "--no-evidence"], env=dict(os.environ, POOYA_REPO=t), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, p, "CAUGHT" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "rc=%d %s" % (r.returncode, (r.stdout+r.stderr)[-300:]), "%.0fs" % (time.time() - s), flush=True)
    finally:
        shutil.rmtree(t)
