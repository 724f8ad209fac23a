#!/usr/bin/env python3
"""Mutation sweep over scratch copies of /repo/src.  usage: mutate.py N SEED [file-substring]
Makes small mutants of the library, runs the checks that anchor in the file (stopping at the first that reports a violation)
and lists the survivors."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED = int(sys.argv[1]), int(sys.argv[2]); only = sys.argv[3] if len(sys.argv) > 3 else ""
PROPS = {
 "block/block": "C20 C21 C24 C05", "block/integrator": "C09 C13", "block/leaf": "C27 C05 C03", "block/submodel": "C27 C21 C05 C25",
 "block/singl": "C20 C02", "extra/add": "C02 C20", "extra/bus_": "C23 C20", "extra/const": "C02", "extra/delay": "C07 C14", "extra/derivative": "C08 C14",
 "extra/divide": "C02 C20", "extra/subtract": "C02 C20", "extra/function": "C02 C20", "extra/gain": "C02", "extra/initial": "C06", "extra/memory": "C06 C14",
 "extra/multiply": "C02 C20", "extra/pipe": "C02", "function": "C02 C20", "extra/source": "C02 C20", "extra/triggered": "C10 C09", "helper/util": "C27 C24", "helper/": "C24",
 "named_object": "C19", "signal/bus": "C18 C19 C22 C23", "signal/signal": "C22 C20 C24", "signal/trait": "C22", "_signal": "C01 C22 C24 C09",
 "solver/euler": "C11", "solver/rk4": "C11", "solver/rkf45": "C12", "solver/stepper": "C11 C14", "solver/history": "C16 C17", "solver/fast_sim": "C25 C05 C04 C28 C29 C24",
 "solver/simulator_base": "C15 C13 C25 C09 C28 C29 C14 C04 C26 C31", "solver/simulator.": "C25 C27 C05 C04 C28 C29 C31 C24 C14",
}
OPS = [(r"==", "!="), (r"!=", "=="), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"!(?=[a-z_(])", ""), (r"\| ", "& "), (r"\+=", "-="),
       (r"std::min", "std::max"), (r"std::max", "std::min"), (r"\.back\(\)", ".front()"), (r"\.front\(\)", ".back()"), (r"\bt1\b", "t2"), (r"\bt2\b", "t1"), (r"\bt\b", "_t_prev"), (r"return true", "return false"), (r"continue", "break"),
       (r"_state_variables\b", "_state_variables_orig"), (r"_ibus", "_obus"), (r"\bin\b", "out"), (r"k - 1", "k"), (r"\+ 1\b", ""), (r"\blevel \+ 1", "level"), (r"_K2", "_K1"), (r"_K3", "_K2")]
def code_lines(f):
    t = open(f).read().split("\n"); inc = False
    for i, l in enumerate(t):
        if l.lstrip().startswith("/*"): inc = True
        if not inc and l.strip() and not l.strip().startswith(("//", "#", "pooya_trace", "using", "namespace", "template", "explicit", "class ", "public", "protected", '"')): yield i, l
        if "*/" in l: inc = False
muts = []
for f in sorted(glob.glob("/repo/src/**/*.?pp", recursive=True)):
    r = os.path.relpath(f, "/repo")
    if only not in r or "gp-ios" in r or "here.hpp" in r: continue
    for i, l in code_lines(f):
        for a, b in OPS:
            for m in re.finditer(a, l):
                if "std::string(" in l or '" + ' in l or "pooya_verify(false" in l: continue
                muts.append((r, i, l[:m.start()] + b + l[m.end():]))
        s = l.strip()
        if s.endswith(";") and not s.startswith(("return", "auto", "const ", "double ", "int ", "uint", "bool ", "std::", "T ", "typename", "Signal", "Block", "virtual", "static", "ScalarSignal", "break", "}", "friend")) and not re.match(r"^[A-Za-z_:<>\*& ]+ \w+(\{.*\})?;$", s) and "override" not in s:
            muts.append((r, i, re.match(r"\s*", l).group() + ";"))
        if re.match(r"\s*(else )?if \(.*\)$", l): muts.append((r, i, re.sub(r"if \(.*\)", "if (false)", l))); muts.append((r, i, re.sub(r"if \(.*\)", "if (true)", l)))
random.Random(SEED).shuffle(muts)
print(len(muts), "mutants in all"); done = 0
for r, i, new in muts:
    if done >= N: break
    t = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", t + "/src"); shutil.copytree("/repo/3rdparty", t + "/3rdparty")
        L = open(t + "/" + r).read().split("\n"); old = L[i]; L[i] = new; open(t + "/" + r, "w").write("\n".join(L))
        props = next((v for k, v in PROPS.items() if k in r), "C24").split()
        s = time.time(); res = []
        for p in props:
            q = subprocess.run(["timeout", "900", "python3", V + "/check.py", p, "--no-evidence"], env=dict(os.environ, POOYA_REPO=t), capture_output=True, text=True)
            out = q.stdout + q.stderr
            if q.returncode == 1 and "VIOLATION" in out: res.append(p + ":caught"); break
            if q.returncode == 0: res.append(p + ":quiet")
            else: res.append("%s:rc%d %s" % (p, q.returncode, "build" if "error:" in out else out.strip()[-160:].replace("\n", " | ")))
            if "error:" in out: break
        verdict = "CAUGHT" if res[-1].endswith("caught") else "BUILD" if res[-1].endswith("build") else "SURVIVED"
        if verdict != "BUILD": done += 1
        print("%s %s:%d\n   - %s\n   + %s\n   %s %.0fs" % (verdict, r, i + 1, old.strip(), new.strip(), res, time.time() - s), flush=True)
    finally:
        shutil.rmtree(t)
