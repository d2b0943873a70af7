"""Mechanical mutants of /repo/src: swapped operators, changed constants, removed
statements, copies and clean-ups. Runs the checks that concern the changed file
on each, a few runs per check, until one reports it.
usage: mutgen.py list | show N | run [-j JOBS] [-n RUNS] OUT [N...]
"""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo") + "/"
SRC = REPO + "src/trusspy/"
CHECKS = {
    "solvers/zerosearch.py": "C07 C01 C06 C15",
    "solvers/tpsolver.py": "C01 C06 C05 C15 C03 C04",
    "model.py": "C01 C06 C04 C10 C12 C15 C16 C14 C08 C03 C09 C13",
    "materials/material_definition.py": "C02 C01 C04",
    "elements/element_definition.py": "C01 C04 C02",
    "core/analysis.py": "C01 C04 C10",
    "core/": "C11 C01 C08",
    "handlers/handler_result.py": "C04 C03 C10 C16",
    "handlers/handler_settings.py": "C05 C06 C08 C09 C01",
    "handlers/": "C11 C01 C10 C08 C09",
    "tools/movie_generator.py": "C13 C16",
    "tools/plot_utilities.py": "C16 C13 C04",
    "tools/helper_functions2.py": "C16 C15",
}
SWAP = {
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
    ast.In: "not in", ast.NotIn: "in",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "*"}
STRIP = {"deepcopy", "copy", "abs", "sort", "sqrt", "sign", "flatten"}


def mutants():
    out = []
    for root, _, files in sorted(os.walk(SRC)):
        for fn in sorted(files):
            path = os.path.join(root, fn)
            if not fn.endswith(".py") or fn.startswith("__"):
                continue
            text = open(path).read()
            lines = text.splitlines(keepends=True)
            off = [0]
            for x in lines:
                off.append(off[-1] + len(x.encode()))
            raw = text.encode()

            def pos(n):
                return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

            def src(n):
                a, b = pos(n)
                return raw[a:b].decode()

            def put(n, new, what):
                a, b = pos(n)
                out.append((path[len(REPO) :], a, b, new, n.lineno, what))

            tree = ast.parse(text)
            for n in ast.walk(tree):
                for c in ast.iter_child_nodes(n):
                    c.parent = n
            def in_print(n):
                while n is not None:
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
                        return True
                    n = getattr(n, "parent", None)
                return False

            for n in ast.walk(tree):
                if isinstance(n, (ast.Compare, ast.BinOp, ast.Constant, ast.Call, ast.UnaryOp)) and in_print(n):
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    put(n, f"({src(n.left)} {SWAP[type(n.ops[0])]} {src(n.comparators[0])})", "compare")
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                        continue
                    put(n, f"({src(n.left)} {BIN[type(n.op)]} {src(n.right)})", "binop")
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                    if isinstance(n.value, bool):
                        put(n, str(not n.value), "bool")
                    elif isinstance(n.value, int):
                        put(n, str(n.value + 1), "const")
                    else:
                        put(n, repr(n.value * 1.5 + (n.value == 0)), "const")
                elif isinstance(n, ast.BoolOp):
                    put(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({src(v)})" for v in n.values) + ")", "boolop")
                elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    put(n.test, f"(not ({src(n.test)}))", "negate")
                elif isinstance(n, ast.UnaryOp):
                    put(n, f"({src(n.operand)})", "unary")
                elif isinstance(n, ast.Call):
                    f = n.func
                    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                    if name in STRIP:
                        if n.args:
                            put(n, f"({src(n.args[0])})", "strip")
                        elif isinstance(f, ast.Attribute):
                            put(n, f"({src(f.value)})", "strip")
                    for k in n.keywords:
                        if k.arg and len(n.keywords) > 0:
                            a, b = pos(k.value)
                            if isinstance(k.value, (ast.Name, ast.Attribute)):
                                out.append((path[len(REPO) :], a, b, "None", k.value.lineno, "kwarg"))
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Return)):
                    put(n, "pass", "delete")
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    put(n, "pass", "delete print" if in_print(n.value) else "delete")
                elif isinstance(n, ast.For):
                    put(n.iter, f"list({src(n.iter)})[:-1]", "short")
                    put(n.iter, f"list({src(n.iter)})[::-1]", "reverse")
    return out


def checks(path):
    p = path[len("src/trusspy/") :]
    for k, v in CHECKS.items():
        if p == k or (k.endswith("/") and p.startswith(k)):
            return v.split()
    return []


def make(m, root):
    path, a, b, new, _, _ = m
    p = os.path.join(root, path)
    raw = open(p, "rb").read()
    raw = raw[:a] + new.encode() + raw[b:]
    compile(raw, p, "exec")
    open(p, "wb").write(raw)


def one(i, m, runs):
    d = tempfile.mkdtemp(prefix="gen-", dir="/tmp/mut")
    try:
        shutil.copytree(REPO + "src", d + "/src")
        try:
            make(m, d)
        except SyntaxError:
            return i, "syntax", "", 0
        t0 = time.time()
        for c in checks(m[0]):
            env = dict(os.environ, DST_REPO=d, DST_NO_EVIDENCE="1", DST_REPLAYS=d + "/rp", DST_JOBS=os.environ.get("DST_JOBS", "1"))
            try:
                p = subprocess.run(["./check", c, *(["-n", str(runs)] if runs else [])], cwd=HERE, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=1200)
            except subprocess.TimeoutExpired:
                return i, "timeout", c, time.time() - t0
            if p.returncode:
                txt = p.stdout.decode()
                info = [x.strip() for x in txt.splitlines() if x.startswith("  ") or "ERROR" in x][:1]
                return i, "caught" if p.returncode == 1 else f"exit {p.returncode}", c + " " + (info[0] if info else "")[:90], time.time() - t0
        return i, "SURVIVED", "", time.time() - t0
    finally:
        shutil.rmtree(d)


def show(i, m):
    raw = open(REPO + m[0], "rb").read()
    old = raw[m[1] : m[2]].decode()
    return f"{i:4} {m[0][12:]}:{m[4]} {m[5]}: {re.sub(r'\\s+', ' ', old)[:90]!r} -> {re.sub(r'\\s+', ' ', m[3])[:90]!r}"


if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True)
    ms = mutants()
    if sys.argv[1] == "list":
        for i, m in enumerate(ms):
            print(show(i, m))
    elif sys.argv[1] == "show":
        for i in sys.argv[2:]:
            print(show(int(i), ms[int(i)]))
    else:
        args = sys.argv[2:]
        jobs, runs = 7, 40
        while args[0].startswith("-"):
            if args[0] == "-j":
                jobs = int(args[1])
            else:
                runs = int(args[1])
            args = args[2:]
        which = [int(x) for x in args[1:]] or range(len(ms))
        with open(args[0], "a") as fh, ThreadPoolExecutor(jobs) as ex:
            for fut in as_completed([ex.submit(one, i, ms[i], runs) for i in which]):
                i, verdict, info, t = fut.result()
                fh.write(f"{verdict:9} {t:5.0f} s {show(i, ms[i])} | {info}\n")
                fh.flush()
