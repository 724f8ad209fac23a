#!/usr/bin/env python3
"""Replays a counterexample natively.  usage: replay.py HARNESS INPUTS   (INPUTS as named by a VIOLATION line)

The harness is compiled with g++ together with /repo's current sources; the build mode is taken from the name of the
inputs file. Exit 0: all assertions hold for these inputs; 77: the inputs do not satisfy an assumption."""
import concurrent.futures as cf, os, sys, tempfile
import check


def main():
    name, inputs = sys.argv[1], sys.argv[2]
    kinds = sys.argv[3:] or ["nat", "san"]
    h = check.parse_harness(os.path.join(check.H, name + ".cpp"))
    md = ["-DNDEBUG"] if "-release-" in os.path.basename(inputs) else []
    os.makedirs(check.CACHE, exist_ok=True)
    defs = h["quick"]
    log = inputs + ".log"
    if os.path.exists(log):
        for line in open(log, errors="replace"):
            if line.startswith(name + "["):
                defs = line[len(name) + 1:line.index("]")].split()[1:]
                break
    worst = 0
    with tempfile.TemporaryDirectory(prefix="pse-") as tmp, cf.ThreadPoolExecutor(8) as pool:
        for k in kinds:
            rc, out = check.native_run(check.build(pool, h["path"], k, defs, md), inputs, tmp)
            print("--- %s build: exit code %d\n%s" % (k, rc, out[-3000:]))
            if rc not in (0, 77):
                worst = 1
    return worst


sys.exit(main())
