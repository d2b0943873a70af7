"""Plant bugs in a scratch copy of /repo and see which checks notice.
usage: mutants.py run [ID...] | diff ID OUT | list
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/trusspy/"
TP, ZS, MO = S + "solvers/tpsolver.py", S + "solvers/zerosearch.py", S + "model.py"
EL, MA, RH = S + "elements/element_definition.py", S + "materials/material_definition.py", S + "handlers/handler_result.py"
HE, HB, HF, HN = (S + f"handlers/handler_{x}.py" for x in ("element", "boundary", "extforce", "node"))
PU, MG, AN = S + "tools/plot_utilities.py", S + "tools/movie_generator.py", S + "core/analysis.py"

M = {}


def mut(name, prop, *edits):
    M[name] = (prop, edits)


exec(open(os.path.join(HERE, "tools", "mutant_list.py")).read())
exec(open(os.path.join(HERE, "tools", "refactor_list.py")).read())


def apply(name, root):
    for file, old, new in M[name][1]:
        p = os.path.join(root, file)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{name}: {s.count(old)} matches in {file} for {old!r}")
        open(p, "w").write(s.replace(old, new))


def copy():
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    shutil.copytree("/repo/src", d + "/src")
    return d


def diff(name, out):
    d = copy()
    apply(name, d)
    p = subprocess.run(["git", "diff", "--no-index", "--no-color", "/repo/src", d + "/src"], stdout=subprocess.PIPE)
    t = p.stdout.decode().replace(d + "/src", "/src").replace("a/repo/src", "a/src").replace("b/repo/src", "b/src")
    open(out, "w").write(t)
    shutil.rmtree(d)


def run(names, extra):
    jobs = [
        (name, p)
        for name in names
        for p in ([f"C{i:02d}" for i in range(1, 17)] if M[name][0] == "ALL" else [M[name][0]])
    ]
    for name, prop in jobs:
        d = copy()
        apply(name, d)
        t0 = time.time()
        env = dict(os.environ, DST_REPO=d, DST_EVIDENCE=d + "/ev", DST_REPLAYS=d + "/rp")
        p = subprocess.run(["./check", prop, *extra], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        verdict = {0: "MISSED", 1: "caught"}.get(p.returncode, f"exit {p.returncode}")
        runs = re.search(r"(\d+) runs", out)
        info = [x for x in out.splitlines() if x.startswith("  ") or "ERROR" in x][:2]
        print(f"{name:8} {prop} {verdict:8} {runs.group(1) if runs else '?':>6} runs {time.time() - t0:5.0f} s {' | '.join(info)[:220]}", flush=True)
        if p.returncode not in (0, 1):
            print(out[-1500:])
        shutil.rmtree(d)


if sys.argv[1] == "diff":
    diff(sys.argv[2], sys.argv[3])
elif sys.argv[1] == "list":
    print(*M)
else:
    extra = [a for a in sys.argv[2:] if a.startswith("-")]
    run([a for a in sys.argv[2:] if not a.startswith("-")] or list(M), extra)
