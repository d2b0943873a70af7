"""C08: an analysis depends on nothing but its definition."""
import gc
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np

from .. import gen as G
from .. import model, runner
from .. import world as W
from . import path

ID = "C08"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 24000
COMPONENTS = {
    "real": path.COMPONENTS["real"] + ["trusspy.tools (plots, matplotlib with the Agg backend)"],
    "stub": path.COMPONENTS["stub"] + ["clocks (virtual)", "file system (scratch folder, chosen listing order)"],
}
ASSUMPTIONS = path.ASSUMPTIONS + [
    "bit-identical on one machine with one set of installed libraries and one BLAS thread",
]
STATES = "distinct (variation, steps, material mix, disturbed or not, outcome)"
RULE = (
    "generated definition and solver fault plan from (VERIF_SEED, C08, i), run in a pristine process and again "
    "in two varied environments; every 60th case in new processes with other hash seeds. Non-trivial: a solver "
    "fault fired or the environment was varied"
)
PROBES = ("var.log", "var.logfile", "var.clock", "var.cwd", "var.prior", "var.plots", "var.random", "var.hashseed",
          "var.rerun", "var.environ", "var.thread", "var.listing", "probe.unaltered")

ENVIRON = dict(
    LANG=["de_DE.UTF-8", "tr_TR", "", None], LC_ALL=["C", "fr_FR.UTF-8"], LC_NUMERIC=["de_DE"], TZ=["Asia/Tokyo", "", None],
    HOME=["/", "", None], USER=["root", "nobody"], PYTHONHASHSEED=["7", "random"], OMP_NUM_THREADS=["4"], CI=["true"],
    PYTEST_CURRENT_TEST=["tests/test_x.py::test_y (call)"], DEBUG=["1"], VERBOSE=["1"], COLUMNS=["20"], MPLBACKEND=["Agg"],
    PATH=["", None], TMPDIR=["/nonexistent", "."], PWD=["/", None], PYTHONOPTIMIZE=["1"], TERM=["dumb", None],
    NUMPY_EXPERIMENTAL_ARRAY_FUNCTION=["0"], HOSTNAME=["a", "b"],
)

PRIOR = ["same", "core", "other", "failed", "changed"]


def clock(rng):
    return dict(
        wall=[G.r4(rng.choice([0, 1e-4, 0.5, 3600, 1e6]))  for _ in range(3)],
        cpu=[G.r4(rng.choice([0, 1e-4, 0.01, 10]))],
        o_time=rng.choice([0, -1e9, 1.7e9, 4e9]), o_perf=rng.choice([0, 1e6]),
        jumps=[[rng.randrange(0, 40), rng.choice([-1e6, -3600, 5e5])]],
    )


def gen_env(rng):
    e = {}
    for what in rng.sample(["log", "logfile", "clock", "cwd", "prior", "plots", "random", "rerun", "log", "prior",
                            "environ", "thread", "listing"],
                           rng.choice([1, 2, 3, 4])):
        if what == "log":
            e["log"] = rng.choice([0, 1, 2, 3, 7])
        elif what == "logfile":
            e["logfile"] = rng.choice(["analysis", "x y", "log.1", "sub/run"])
        elif what == "clock":
            e["clock"] = clock(rng)
        elif what == "cwd":
            e["cwd"] = rng.choice(["a", "b/c", "gone"])
        elif what == "prior":
            e["prior"] = [rng.choice(PRIOR) for _ in range(rng.choice([1, 1, 2]))]
            e["other"] = rng.randrange(10**6)
        elif what == "plots":
            if rng.random() < 0.3:
                e["plots"] = rng.sample(["before", "after", "path", "history", "reads"], rng.choice([1, 2, 3]))
            else:
                e["plots"] = ["reads"]
        elif what == "random":
            e["random"] = rng.randrange(10**6)
        elif what == "rerun":
            e["rerun"] = rng.choice([1, 1, 2])
        elif what == "environ":
            e["environ"] = {k: rng.choice(ENVIRON[k]) for k in rng.sample(sorted(ENVIRON), rng.choice([1, 2, 4]))}
        elif what == "thread":
            e["thread"] = rng.choice(["worker", "MainThread"])
        elif what == "listing":
            e["listing"] = rng.randrange(10**6)
    return e


def gen(rng, i, tier):
    if i % 60 == 7:
        items = []
        for _ in range(10):
            c = path.gen_path(rng, i, max_steps=3)
            items.append(c)
        return dict(mode="hashseed", items=items, seeds=[rng.randrange(1, 10**6), rng.randrange(1, 10**6)])
    case = path.gen_path(rng, i)
    case["mode"] = "env"
    case["envs"] = [gen_env(rng) for _ in range(2)]
    return case


# -- one analysis ------------------------------------------------------------------


def plain(v):
    "a comparable copy of anything a caller holds"
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), list(v.shape), v.tolist()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if hasattr(v, "__dict__"):
        return [type(v).__name__, plain(vars(v))]
    return repr(v)


def table(labels, *columns):
    if labels is None:
        return {}
    out = {}
    for i, l in enumerate(list(labels)):
        out.setdefault(float(l), []).append([np.asarray(c[i], float).ravel().tolist() for c in columns])
    return {k: sorted(v) for k, v in out.items()}


def definition(m):
    return dict(
        nodes=table(m.Nodes.labels, m.Nodes.coords),
        elements=table(
            m.Elements.labels, m.Elements.conns, m.Elements.elem_type, m.Elements.mat_type,
            m.Elements.material_properties, m.Elements.geometric_properties,
        ),
        supports=table(m.Boundaries.Unodes, m.Boundaries.Uvalues),
        loads=table(m.ExtForces.nodes, m.ExtForces.forces),
    )


def settings(m):
    return {k: plain(v) for k, v in vars(m.Settings).items()}


def altered(before, after):
    "what a build and run changed in the definition"
    for k in before:
        b, a = before[k], after[k]
        for l in b:
            if a.get(l) != b[l]:
                return f"{k} {l:g}: {b[l]} became {a.get(l)}"
        for l in a:
            if l in b:
                continue
            free = k == "supports" and a[l] == [[[1.0, 1.0, 1.0]]]
            zero = k == "loads" and len(a[l]) == 1 and not any(a[l][0][0])
            if not (free or zero) or l not in before["nodes"]:
                return f"{k} {l:g} appeared: {a[l]}"
    return None


def look(m, what):
    import matplotlib.pyplot as plt

    labels = [int(x) for x in m.Nodes.labels]
    n = len(m.Results.R) if hasattr(m, "Results") else 0
    if what == "reads":
        for e in list(m.Elements.labels):
            m.Elements.get_nodes(e), m.Elements.get_material_properties(e), m.Elements.get_geometric_properties(e)
            m.Elements.get_material_type(e), m.Elements.get_element_type(e), m.Elements.NE(e), m.Elements.NA(e)
        for i in range(n):
            r = m.Results.get_result(i)
            r.get_U(flat=True), r.get_U(red=True), r.get_r(), repr(vars(r))
            np.asarray(r.U) + 1
    elif not n:
        return
    elif what in ("before", "after"):
        m.plot_model(inc=-1, contour="force" if n > 1 else None)
    elif what == "path":
        m.plot_path(labels, -1, Y="Force X" if n > 1 else "Displacement Z")
    elif what == "history":
        m.plot_history(nodes=[labels[0], labels[-1]], X="Displacement Z", Y="LPF")
    plt.close("all")


def analysis(case, env):
    """the observable outcome of one analysis in a given environment"""
    spec = dict(case["spec"])
    w = W.World(case.get("faults", []), budget=20000, clock=env.get("clock"))
    out = W.Out(w)
    kw = {}
    if "log" in env:
        spec["log"] = env["log"]
    if "logfile" in env:
        kw = dict(logfile=True, logfile_name=env["logfile"])
    found = dict(altered=None, plots=0)
    core = None
    old, sys.stdout = sys.stdout, out
    try:
        for k, prior in enumerate(env.get("prior", ())):
            core = use_before(case, prior, env["other"] + k, core)
        if "random" in env:
            random.seed(env["random"])
            np.random.seed(env["random"])
            np.set_printoptions(precision=3, suppress=True)
            gc.disable() if env["random"] % 2 else gc.collect()
        if "cwd" in env:
            os.makedirs(env["cwd"], exist_ok=True)
            os.chdir(env["cwd"])
        for k, v in env.get("environ", {}).items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        if "listing" in env and env.get("cwd") != "gone":
            for name in ("b.txt", "a.log", "figures", "settings.json", "trusspy.cfg", "c"):
                with open(name, "w") as f:
                    f.write(f"{env['listing']}\n")
            if not env.get("plots"):
                w.io = W.IOSim(os.getcwd(), dict(shuffle=env["listing"]), stats=w.stats)
        if os.path.dirname(env.get("logfile", "")):
            os.makedirs(os.path.dirname(env["logfile"]), exist_ok=True)
        lists = json.loads(json.dumps(spec))
        core = core or model.make_core(lists)
        held = {k: (core[k], list(core[k])) for k in core}
        before_core = plain(core)
        m = model.make(lists, api=case.get("api", "single"), core=core, **kw)
        before_lists = plain(lists)
        m.Settings.log = spec.get("log", 0)
        if env.get("cwd") == "gone" and "logfile" not in env:
            here = os.getcwd()
            os.chdir("..")
            os.rmdir(here)
        before, before_set = definition(m), settings(m)
        exc = None
        for turn in range(1 + env.get("rerun", 0)):
            w.nsolve = 0  # the same disturbances recur
            exc = None
            with W.active(w):
                try:
                    m.build()
                    for what in env.get("plots", ()):
                        if what in ("before", "reads"):
                            look(m, what)
                    m.run()
                except W.SimBudget as e:
                    exc = e
                except Exception as e:
                    exc = e
            R = list(m.Results.R) if hasattr(m, "Results") else []
            snaps = [model.snap(r) for r in R]
            ends = model.b(list(getattr(getattr(m, "Results", None), "step_lpf_end", [])))
            for what in env.get("plots", ()):
                if exc is None:
                    look(m, what)
        if exc is None and [model.snap(r) for r in m.Results.R] != snaps:
            found["altered"] = "results changed by reads and plots"
        found["altered"] = found["altered"] or altered(before, definition(m))
        after_set = settings(m)
        for k in before_set:
            if after_set.get(k) != before_set[k]:
                found["altered"] = f"setting {k}: {before_set[k]} became {after_set.get(k)}"
        if plain(core) != before_core:
            found["altered"] = "core objects given to the model were changed"
        if plain(lists) != before_lists:
            found["altered"] = "lists given to the model were changed"
        for k, (lst, items) in held.items():
            if len(lst) != len(items) or any(a is not b for a, b in zip(lst, items)):
                found["altered"] = f"the list of {k} given to the model was changed"
    finally:
        sys.stdout = old
    found["status"] = "ok" if exc is None else f"{type(exc).__name__}: {exc}"
    found["excused"] = isinstance(exc, W.SimBudget) or bool(w.stats["real_solver_error"])
    found["snaps"] = [{k: v.hex() for k, v in s.items()} for s in snaps]
    found["ends"] = ends.hex()
    found["stats"] = dict(w.stats)
    found["solves"] = w.nsolve
    found["log"] = w.digest() if not env.get("rerun") else ""
    return found


def use_before(case, prior, seed, core):
    "what the process did before"
    spec = case["spec"]
    if prior == "other":
        spec = G.scenario(G.rng_for("other", seed), max_steps=2, incs=3)
        m = model.make(spec)
        model.Run(m, W.World(budget=5000))
        return core
    core = core or model.make_core(spec)
    if prior == "same":
        m = model.make(spec, api=case.get("api", "single"))
        model.Run(m, W.World(case["faults"], budget=20000))
    elif prior == "core":
        m = model.make(spec, api="list", core=core)
        model.Run(m, W.World(budget=20000))
    elif prior == "failed":
        m = model.make(spec, core=core)
        model.Run(m, W.World(budget=20000, crash=["solve", seed % 23, ["MemoryError", "RuntimeError"][seed % 2]]))
    elif prior == "changed":
        # the same core objects in a model which is then edited
        m = model.make(spec, api="list", core=core)
        m.Elements.assign_material("all", [77.0, 1.0, 0.5], mtype=2)
        m.Elements.assign_geometry("all", [3.0])
        m.Settings.incs = 3
        m.Settings.nfev = 5
        model.Run(m, W.World(budget=5000))
        m.Nodes.coords[:] = 1.5
        m.ExtForces.forces[:] = 9.0
        m.Boundaries.Uvalues[:] = 0
        for r in m.Results.R:
            r.U[:] = 4.0
    return core


def compare(a, b):
    if a["status"] != b["status"]:
        return f"ended with {b['status']} instead of {a['status']}"
    d = model.diff(a["snaps"], b["snaps"])
    if d:
        return d
    if a["ends"] != b["ends"]:
        return "reached load factors differ"
    return None


def run(case, rep):
    if case["mode"] == "hashseed":
        return hashseeds(case, rep)
    base = runner.forked(lambda: analysis(case, {}))
    account(base, rep)
    if base["altered"]:
        rep.bad("altered", base["altered"])
        return
    if base["status"] != "ok" and not base["excused"]:
        rep.bad("unexpected-error", f"the run ended with {base['status']}")
        return
    rep.stats["probe.unaltered"] += 1
    for n, env in enumerate(case["envs"]):
        got = runner.forked(lambda: in_folder(f"env{n}", case, env))
        if "raised" in got:
            raise RuntimeError(got["raised"])
        account(got, rep)
        for k in env:
            rep.stats["var." + k] += 1
            rep.key(k, case["spec"]["settings"].get("nsteps", 1), bool(case["faults"]), base["status"][:12],
                    json.dumps(env[k])[:12] if k in ("log", "logfile", "cwd", "prior", "plots") else "")
        rep.nontrivial = True
        d = compare(base, got)
        if d:
            rep.bad("differs", f"with {describe(env)}: {d}")
            return
        if got["altered"]:
            rep.bad("altered", f"with {describe(env)}: {got['altered']}")
            return


def in_folder(name, case, env):
    os.mkdir(name)
    os.chdir(name)
    if "thread" not in env:
        return analysis(case, env)
    found = {}

    def work():
        try:
            found.update(analysis(case, env))
        except BaseException as e:  # of the harness
            found["raised"] = repr(e)

    t = threading.Thread(target=work, name=env["thread"])
    t.start()
    t.join()
    return found


def describe(env):
    return ", ".join(f"{k}={json.dumps(v)[:40]}" for k, v in sorted(env.items())) or "nothing varied"


def account(found, rep):
    rep.stats.update(found["stats"])
    rep.stats["solves"] += found["solves"]
    rep.sim_s += 0.005 * found["solves"]
    rep.part(found["status"], found["log"], [sorted(s.items()) for s in found["snaps"]])
    if any(k.startswith("fault") for k in found["stats"]):
        rep.nontrivial = True


def hashseeds(case, rep):
    base = [runner.forked(lambda c=c: analysis(c, {})) for c in case["items"]]
    for b in base:
        account(b, rep)
    with open("items.json", "w") as f:
        json.dump(case["items"], f)
    here = os.path.abspath("items.json")
    for s in case["seeds"]:
        env = dict(os.environ, DST_HASHSEED=str(s), TMPDIR=os.getcwd())
        if s % 2:  # without assertions
            env["DST_OPT"] = "1"
        p = subprocess.run(
            [os.path.join(runner.HERE, "run"), "variant", here], env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=140,
        )
        if p.returncode != 0:
            raise RuntimeError(p.stderr.decode()[-2000:])
        other = json.loads(p.stdout)
        rep.stats["var.hashseed"] += 1
        rep.nontrivial = True
        rep.key("hashseed", len(other))
        for i, (a, b) in enumerate(zip(base, other)):
            d = compare(a, b)
            if d:
                rep.bad("differs", f"in a process with hash seed {s}, model {i}: {d}")
                return


def variant(file):
    "in a new process: run the items of a file and print what came out"
    with open(file) as f:
        items = json.load(f)
    out = [analysis(c, {}) for c in items]  # one process for all
    print(json.dumps(out))


def shrink(case):
    if case["mode"] == "hashseed":
        for c in runner.shrink_list(case["items"], least=1):
            yield dict(case, items=c)
        return
    for c in runner.shrink_list(case["envs"]):
        yield dict(case, envs=c)
    for i, e in enumerate(case["envs"]):
        for k in e:
            if k == "other":
                continue
            new = {a: b for a, b in e.items() if a != k and not (k == "prior" and a == "other")}
            yield dict(case, envs=case["envs"][:i] + [new] + case["envs"][i + 1 :])
        for k in ("prior", "plots"):
            for sub in runner.shrink_list(e.get(k, []), least=1):
                yield dict(case, envs=case["envs"][:i] + [dict(e, **{k: sub})] + case["envs"][i + 1 :])
    yield from runner.shrink_path(case)
