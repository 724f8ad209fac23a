#!/usr/bin/env python3
"""Makes and validates planted bugs.  usage: mkseed.py SPEC.py [ID...]
SPEC.py defines SEEDS: list of dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=C++ text).
Each one is applied to a scratch copy of /repo; build, stable tests and the demonstration are run there, and the
result is written to /verif/seeded/<id>/ if everything is as it should be."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# builds the demonstration beside this file against the sources in the current directory, and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'find "$tmp" -delete' EXIT
{ find src -name '*.cpp'; echo "$here/demo.cpp"; } | xargs -P 8 -I{} sh -c \\
  'g++ -std=c++17 -O0 -w -DEIGEN_MPL_ONLY %s -iquote . -isystem 3rdparty -isystem /usr/include/eigen3 -c "$1" -o "$2/$(echo "$1" | tr / _).o"' _ {} "$tmp"
g++ "$tmp"/*.o -o "$tmp/demo"
cd "$tmp"
timeout 60 ./demo > out.txt 2>&1 || { tail -5 out.txt; exit 1; }
'''
PRE = '''#include "src/helper/defs.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <optional>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    for s in seeds:
        if want and s["id"] not in want: continue
        d = tempfile.mkdtemp(prefix="seed-")
        try:
            w = d + "/repo"
            sh(["cp", "-a", "/repo", w], "/")
            for f, old, new in s["edits"]:
                t = open(w + "/" + f).read()
                if t.count(old) != 1: print(s["id"], "EDIT does not match once:", f, t.count(old)); break
                open(w + "/" + f, "w").write(t.replace(old, new))
            else:
                diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
                sd = d + "/demo"; os.mkdir(sd)
                open(sd + "/demo.cpp", "w").write(PRE + s["demo"])
                open(sd + "/demo.sh", "w").write(DEMO_SH % s.get("flags", "")); os.chmod(sd + "/demo.sh", 0o755)
                a = sh(["bash", sd + "/demo.sh"], "/repo"); b = sh(["bash", sd + "/demo.sh"], w)
                # the scratch copy's own build of library and tests, in debug mode as the repository builds them
                t = sh(["bash", "-c", TESTS], w)
                ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0 and "error:" not in b.stdout
                print(s["id"], "OK" if ok else "BAD", "demo unchanged", a.returncode, "patched", b.returncode, b.stdout.strip()[-200:], "tests", t.returncode)
                if a.returncode: print(a.stdout[-1500:])
                if t.returncode: print(t.stdout[-1500:])
                if ok:
                    o = V + "/seeded/" + s["id"]; os.makedirs(o, exist_ok=True)
                    open(o + "/patch.diff", "wb").write(diff)
                    for f in ("demo.cpp", "demo.sh"): shutil.copy(sd + "/" + f, o + "/" + f)
                    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
        sys.stdout.flush()
TESTS = r'''
set -e
mkdir -p _seedbuild
{ find src tests -name '*.cpp'; } | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -DEIGEN_MPL_ONLY -iquote . -isystem 3rdparty -isystem /usr/include/eigen3 -c "$1" -o "_seedbuild/$(echo "$1" | tr / _).o"' _ {}
for t in _seedbuild/tests_*.o; do g++ $t _seedbuild/src_*.o -lgtest -lgtest_main -lpthread -o _seedbuild/t; ./_seedbuild/t >_seedbuild/log 2>&1 || { cat _seedbuild/log; exit 1; }; done
'''
main()
