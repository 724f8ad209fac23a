#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness headers."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
TECH = "symbolic execution of the real code's LLVM IR, every assertion and branch decided by an SMT solver (Z3), counterexamples replayed on the native build"
NA = {}
hs = [check.parse_harness(p) for p in sorted(glob.glob(os.path.join(V, "harness", "c*.cpp")))]
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    mine = [h for h in hs if p in h["property"]]
    if not mine:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
        continue
    bounds = "; ".join(b for h in mine for b in h["bounds"])
    assume = "; ".join(sorted({b for h in mine for b in h["assume"]}))
    theory = " and ".join(sorted({{"real": "doubles as exact reals (no rounding or overflow)", "fp": "doubles as IEEE bit patterns"}[h["theory"]] for h in mine}))
    note = ("Bounded, exhaustive within the bounds: holds for every value of the symbolic inputs and every choice within: %s. "
            "Arithmetic: %s. Trusts clang's translation to IR, the executor pse and Z3 (path witnesses are also run on the native g++ build)." % (bounds, theory))
    if assume:
        note += " Assumes: " + assume + "."
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": TECH, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "make -s -C pse OUT=../build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries only fix: commits. The encoding is regenerated from /repo's sources by every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
