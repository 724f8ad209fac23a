#!/usr/bin/env python3
"""Solver-based check of one property.  usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Compiles /repo's current sources together with the property's harnesses to LLVM bitcode, executes the result
symbolically with pse, replays every counterexample on the natively compiled code (g++ with the repository's flags)
and writes evidence/<PROPERTY>.json.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POOYA_REPO", "/repo")
B = os.path.join(V, "build")
CACHE = os.path.join(B, "cache")
H = os.path.join(V, "harness")
NPROC = os.cpu_count() or 8

COMMON = ["-std=c++17", "-DEIGEN_MPL_ONLY", "-DEIGEN_NO_DEBUG", "-iquote", REPO, "-iquote", H,
          "-isystem", os.path.join(REPO, "3rdparty"), "-isystem", "/usr/include/eigen3"]
CLANG = ["clang++-18"] if shutil.which("clang++-18") else ["clang++"]
LLVMLINK = shutil.which("llvm-link-18") or shutil.which("llvm-link") or "/usr/lib/llvm-18/bin/llvm-link"
BCFLAGS = ["-O1", "-gline-tables-only", "-emit-llvm", "-c", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
           "-DEIGEN_DONT_VECTORIZE", "-include", os.path.join(H, "prelude.hpp"), "-Wno-everything"]
NATFLAGS = ["-O0", "-c", "-w"]
SANFLAGS = ["-O1", "-g1", "-c", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_files():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".hpp", ".cpp", ".h")):
                r.append(os.path.join(d, f))
    return r


def harness_headers():
    return glob.glob(os.path.join(H, "*.h")) + glob.glob(os.path.join(H, "*.hpp"))


def ensure_pse():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-C", os.path.join(V, "pse"), "OUT=" + B])
        if r.returncode:
            raise BuildError("building pse failed:\n" + r.stdout)


_treehash = None


def treehash():
    global _treehash
    if _treehash is None:
        _treehash = filehash(repo_files() + harness_headers())
    return _treehash


def compile_one(src, kind, defs):
    """kind: bc | nat | san"""
    flags = {"bc": CLANG + COMMON + BCFLAGS, "nat": ["g++"] + COMMON + NATFLAGS, "san": ["g++"] + COMMON + SANFLAGS}[kind] + defs
    key = hashlib.sha256((treehash() + filehash([src]) + json.dumps(flags)).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, key + (".bc" if kind == "bc" else ".o"))
    if not os.path.exists(out):
        tmp = out + ".tmp" + os.urandom(6).hex()
        r = sh(flags + [src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s (%s %s) failed:\n%s" % (src, kind, " ".join(defs), r.stdout[-6000:]))
        os.rename(tmp, out)
    else:
        try:
            os.utime(out)
        except OSError:
            pass
    return out


def lib_sources():
    return sorted(p for p in repo_files() if p.endswith(".cpp"))


def build(pool, harness, kind, defs, moddefs):
    """link harness + library; moddefs apply to the library too (e.g. -DNDEBUG)"""
    srcs = [(s, moddefs) for s in lib_sources()] + [(harness, moddefs + defs)]
    srcs += [(os.path.join(H, "rt.cpp"), [])] if kind == "bc" else [(os.path.join(H, "native.cpp"), [])]
    outs = list(pool.map(lambda sd: compile_one(sd[0], kind, sd[1]), srcs))
    key = hashlib.sha256(json.dumps(outs).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, key + {"bc": ".linked.bc", "nat": ".nat", "san": ".san"}[kind])
    if not os.path.exists(out):
        tmp = out + ".tmp" + os.urandom(6).hex()
        if kind == "bc":
            r = sh([LLVMLINK, "-suppress-warnings", "-o", tmp] + outs)
        else:
            r = sh(["g++", "-o", tmp] + outs + (["-fsanitize=address,undefined"] if kind == "san" else []))
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (harness, r.stdout[-4000:]))
        os.rename(tmp, out)
    return out


def prune_cache(limit=3 << 30):
    fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
    fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs if os.path.isfile(f)]
    tot = sum(f[1] for f in fs)
    for m, s, f in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s


def parse_harness(path):
    d = {"path": path, "name": os.path.basename(path)[:-4], "property": [], "theory": "real", "modes": ["debug"], "reach": [],
         "bounds": [], "quick": [], "thorough": [], "time": 700, "ttime": 3000, "rlimit": None, "witness": 12, "assume": [],
         "variants": [[]], "tvariants": None}
    for line in open(path):
        m = re.match(r"//@\s*(\w+)\s*(.*)", line.rstrip())
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ("property", "modes", "reach"):
            d[k] = d[k] + v.split() if k == "reach" else v.split()
        elif k in ("quick", "thorough"):
            d[k] = d[k] + v.split()
        elif k in ("variant", "tvariant"):
            key = k + "s"
            if d[key] is None or d[key] == [[]]:
                d[key] = []
            d[key].append(v.split())
        elif k in ("bounds", "assume"):
            d[k].append(v)
        elif k in ("time", "ttime", "rlimit", "witness"):
            d[k] = int(v)
        else:
            d[k] = v
    return d


def run_pse(bc, theory, tlimit, procs, tmp, extra, verbose, witness):
    out = os.path.join(tmp, "out.txt")
    cmd = [os.path.join(B, "pse"), "--theory", theory, "--out", out, "--procs", str(procs), "--time", str(tlimit), "--tmp", tmp] + extra + [bc]
    if verbose:
        cmd[1:1] = ["-v"] * int(os.environ.get("PSE_V", "1"))
    env = dict(os.environ)
    env.pop("PSE_WITNESS", None)
    if witness:
        env["PSE_WITNESS"] = str(witness)
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, text=True)
    res = {"V": [], "U": [], "K": [], "R": set(), "F": set(), "W": [], "S": None}
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            k, _, v = line.rstrip("\n").partition(" ")
            try:
                if k in ("V", "U", "K", "W"):
                    res[k].append(json.loads(v))
                elif k == "R":
                    res["R"].add(v)
                elif k == "F":
                    res["F"].update(v.split())
                elif k == "S":
                    res["S"] = json.loads(v)
            except json.JSONDecodeError:
                pass
    if res["S"] is None:
        raise BuildError("pse did not finish (%s): %s" % (r.returncode, (r.stderr or "")[-2000:]))
    return res


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k, n, v in inputs:
            f.write("%s %s %s\n" % (k, n, v))


def native_run(exe, inputs_path, tmp):
    env = dict(os.environ, PSE_TMP=tmp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")
    try:
        r = subprocess.run([exe, inputs_path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=20, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout


def load_known():
    known = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                m = re.match(r'known: property=(\S+) harness=(\S+) msg="([^"]*)"\s*(.*)', line)
                if m:
                    known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    ensure_pse()
    hs = [parse_harness(p) for p in sorted(glob.glob(os.path.join(H, "c*.cpp")))]
    hs = [h for h in hs if prop in h["property"] and (not a.only or h["name"] == a.only)]
    if not hs:
        print("no harness for", prop)
        return 2
    known = load_known()
    jobs = []
    for h in hs:
        variants = h["variants"]
        if tier == "thorough" and h["tvariants"]:
            variants = h["tvariants"]
        modes = list(h["modes"])
        if tier == "thorough" and h.get("tmodes"):
            modes = h["tmodes"].split()
        for mode in modes:
            for var in variants:
                jobs.append((h, mode, h[tier] + var))
    pool = cf.ThreadPoolExecutor(NPROC)
    tmp = tempfile.mkdtemp(prefix="pse-")
    os.makedirs(os.path.join(B, "replays"), exist_ok=True)
    violations, knownhits, notes, incon = [], [], [], []
    tot = {}
    funcs, reach_all = set(), []
    nvalid = ndis = nna = 0
    samples, perjob = [], []
    vacuous = []
    try:
        # compile everything first (in parallel), natives in the background
        def prep(j):
            h, mode, defs = j
            md = ["-DNDEBUG"] if mode == "release" else []
            with cf.ThreadPoolExecutor(4) as p2:
                return build(p2, h["path"], "bc", defs, md)
        # library objects first, so that the jobs share them
        for mode in sorted({j[1] for j in jobs}):
            md = ["-DNDEBUG"] if mode == "release" else []
            list(pool.map(lambda s: compile_one(s, "bc", md), lib_sources()))
        bcs = list(pool.map(prep, jobs))
        nat_f = {}
        if not a.no_native:
            npool = cf.ThreadPoolExecutor(4)
            for i, (h, mode, defs) in enumerate(jobs):
                md = ["-DNDEBUG"] if mode == "release" else []
                if h["witness"]:
                    nat_f[i] = npool.submit(lambda h=h, defs=defs, md=md: build(pool, h["path"], "nat", defs, md))
        for i, (h, mode, defs) in enumerate(jobs):
            jt = os.path.join(tmp, "j%d" % i)
            os.makedirs(jt)
            extra = []
            if h["rlimit"]:
                extra += ["--rlimit", str(h["rlimit"])]
            dump = None
            if tier == "thorough" and os.environ.get("PSE_CROSS", "1") == "1":
                dump = os.path.join(jt, "smt")
                os.makedirs(dump)
                extra += ["--dump", dump, "40"]
            tl = max(30, min(h["time"], int(640 - (time.time() - t0)))) if tier == "quick" else h["ttime"]  # a quick check must end within 900 s
            res = run_pse(bcs[i], h["theory"], tl, NPROC, jt, extra, a.v, 0 if a.no_native else h["witness"])
            S = res["S"]
            label = "%s[%s%s]" % (h["name"], mode, " " + " ".join(defs) if defs else "")
            for k, v in S.items():
                tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
            funcs |= res["F"]
            missing = [r for r in h["reach"] if r not in res["R"]]
            # ---- counterexamples
            nviol_here = 0
            if res["V"]:
                for vi, v in enumerate(res["V"]):
                    kn = [k for k in known if k[0] == prop and k[1] == h["name"] and k[2] == v["msg"]]
                    confirmed = None
                    for kind in ("nat", "san"):
                        if confirmed or not v["models"]:
                            break
                        try:
                            exe = nat_f[i].result() if kind == "nat" and i in nat_f else build(pool, h["path"], kind, defs, ["-DNDEBUG"] if mode == "release" else [])
                        except BuildError as e:
                            notes.append(str(e)[-500:])
                            continue
                        for mi, m in enumerate(v["models"]):
                            rp = os.path.join(B, "replays", "%s-%s-%s-%d.txt" % (prop, h["name"], mode, vi))
                            write_inputs(rp, m)
                            rc, outp = native_run(exe, rp, jt)
                            if a.v:
                                print("  replay", kind, "model", mi, "rc", rc, outp[-300:])
                            if rc not in (0, 77):
                                confirmed = (rp, rc, outp, kind)
                                break
                    desc = "%s: %s: %s at %s" % (label, v["kind"], v["msg"], v["where"][:300])
                    if confirmed:
                        nviol_here += 1
                        rp, rc, outp, kind = confirmed
                        with open(rp + ".log", "w") as f:
                            f.write("property %s\n%s\nnative replay (%s build) exit code %s\n%s\n\nreproduce: python3 %s/replay.py %s %s\n"
                                    % (prop, desc, kind, rc, outp[-3000:], V, h["name"], rp))
                        if kn:
                            knownhits.append((kn[0], desc))
                        else:
                            violations.append((rp, desc, outp.strip().splitlines()[:1]))
                    else:
                        incon.append("counterexample not confirmed by native replay: " + desc)
            # ---- completeness of the exploration
            for u in res["U"]:
                incon.append("%s: unsupported: %s at %s" % (label, u["msg"], u["where"][:300]))
            for k in res["K"]:
                incon.append("%s: solver gave no answer for: %s" % (label, k["msg"]))
            if S["limits"]:
                incon.append("%s: %d alternatives not explored (limit)" % (label, S["limits"]))
            if not nviol_here and missing and S["completed"] and S["asserts"] and (S["limits"] or S["unsupported"]):
                incon.append("%s: labels not reached within the limit: %s" % (label, missing))
            elif not nviol_here and (missing or S["completed"] == 0 or S["asserts"] == 0):
                vacuous.append("%s: vacuous: labels not reached: %s, completed paths %d" % (label, missing, S["completed"]))
            # ---- validate the executor against the native build on path witnesses
            if i in nat_f and res["W"] and not res["V"]:
                exe = nat_f[i].result()
                ws = res["W"][: h["witness"] if tier == "quick" else 400]

                def one(w):
                    fd, p = tempfile.mkstemp(dir=jt)
                    os.close(fd)
                    write_inputs(p, w["inputs"])
                    return native_run(exe, p, jt)
                for w, (rc, outp) in zip(ws, pool.map(one, ws)):
                    if rc == 0:
                        nr = set(re.findall(r"^REACHED (.*)$", outp, re.M))
                        if nr == set(w["reached"]):
                            nvalid += 1
                        else:
                            nna += 1
                    elif rc == 77:
                        nna += 1
                    else:
                        ndis += 1
                        notes.append("%s: native run of a path witness disagrees (rounding?): %s" % (label, outp[-200:].strip()))
                for w in ws[:2]:
                    samples.append({"harness": label, "inputs": w["inputs"][:40]})
            cross = None
            if dump:
                cross = cross_check(dump, pool)
                if cross.get("disagree"):
                    incon.append("%s: %d obligations where another solver disagrees" % (label, cross["disagree"]))
            perjob.append({"harness": label, "theory": h["theory"], "bounds": h["bounds"], "reach": sorted(res["R"]), "stats": S,
                           **({"cross_check": cross} if cross else {})})
            print("%s: %d paths, %d/%d assertions discharged, %d queries, solver %.1fs, wall %.1fs%s"
                  % (label, S["completed"], S["asserts_concrete"] + S["asserts_simplified"] + S["asserts_solver"], S["asserts"],
                     S["queries"], S["solver_s"], S["wall_s"], ", VIOLATED" if res["V"] else ""))
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune_cache()
    wall = time.time() - t0
    if not a.no_evidence:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        dem = sh(["c++filt"], input="\n".join(sorted(funcs))).stdout.split("\n")
        dem = sorted({d for d in dem if d.startswith("pooya::") or " pooya::" in d[:60] or "pooya::" in d[:40]})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
              "violations": len(violations),
              "assumptions": sorted({x for h in hs for x in h["assume"]}) + [
                  "clang 18 -O1 translation of the sources (scalar Eigen paths), pse's IR semantics, Z3; validated against the native g++ build on path witnesses",
                  "REAL theory: doubles are exact reals without overflow or rounding; FP theory: bit-exact IEEE doubles"],
              "coverage": {"states": tot.get("completed", 0), "transitions": tot.get("instructions", 0),
                           "traces_validated_against_impl": nvalid, "samples": samples[:6],
                           "explanation": "states = completed symbolic paths (each stands for all input values satisfying its path condition); transitions = LLVM instructions of the real code executed symbolically; traces_validated = path witnesses whose native g++ run passed all assertions and reached the same labels",
                           "obligations": tot.get("asserts", 0),
                           "discharged": tot.get("asserts_concrete", 0) + tot.get("asserts_simplified", 0) + tot.get("asserts_solver", 0),
                           "discharged_by_solver_query": tot.get("asserts_solver", 0),
                           "discharged_by_normalisation": tot.get("asserts_simplified", 0),
                           "discharged_concretely_on_path": tot.get("asserts_concrete", 0),
                           "solver_queries": tot.get("queries", 0), "solver_s": round(tot.get("solver_s", 0), 3),
                           "max_query_s": tot.get("max_query_s", 0), "unknown": tot.get("unknown", 0),
                           "symbolic_branches": tot.get("symbolic_branches", 0), "symbolic_inputs": tot.get("symvars", 0),
                           "choices": tot.get("choices", 0), "paths_excluded_by_assumptions": tot.get("assumed_out", 0),
                           "witness_disagreements": ndis, "witness_not_applicable": nna,
                           "functions_encoded": len(dem), "functions": dem[:400],
                           "bounds": sorted({b for h in hs for b in h["bounds"]}),
                           "inconclusive": incon, "notes": notes[:20], "vacuous": vacuous, "jobs": perjob}}
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n in notes[:10]:
        print("note:", n)
    for n in incon[:20]:
        print("INCONCLUSIVE", n)
    for k, d in knownhits:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k[3] or k[2], d[:200]))
    for rp, d, first in violations[:3]:
        print("counterexample:", d)
        if first:
            print("  native replay:", first[0])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if len(violations) > 3:
        print("... and %d more counterexamples" % (len(violations) - 3))
    print("%s %s: %s, wall %.1fs, %d validated, %d disagreements" % (prop, tier, "VIOLATED" if violations else "held", wall, nvalid, ndis))
    if violations:
        return 1
    if vacuous:
        for v in vacuous:
            print("ERROR", v)
        return 2
    return 0


def cross_check(dump, pool):
    fs = sorted(glob.glob(os.path.join(dump, "*.smt2")))
    r = {"obligations": len(fs), "agree": 0, "unknown": 0, "disagree": 0}

    def one(f):
        out = []
        for cmd in (["cvc5", "--tlimit=10000", f], ["z3-new", "-T:10", f]):
            if not shutil.which(cmd[0]):
                continue
            try:
                o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20).stdout.split()
            except subprocess.TimeoutExpired:
                o = []
            out.append(o[0] if o else "unknown")
        return out
    for o in pool.map(one, fs):
        if "sat" in o:
            r["disagree"] += 1
        elif "unsat" in o:
            r["agree"] += 1
        else:
            r["unknown"] += 1
    return r


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("ERROR", e)
        sys.exit(2)
