#!/usr/bin/env python3
"""Lists planted bugs whose removed lines are not the original repository's (or that remove none)."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git rev-list --max-parents=0 HEAD", shell=True, cwd="/repo", capture_output=True, text=True).stdout.strip()
for p in sorted(glob.glob(V + "/seeded/*/patch.diff")):
    f = None; old = new = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-"):
            b = subprocess.run(["git", "blame", "-l", "-L", "%d,%d" % (n, n), f], cwd="/repo", capture_output=True, text=True).stdout
            if base[:30] in b: old += 1
            else: new += 1
            n += 1
        elif l.startswith(" "): n += 1
    print(os.path.basename(os.path.dirname(p)), "original", old, "ours", new, "" if old and not new else "<---")
