"""C09: models that run side by side do not influence each other."""
import json
import sys
import threading

from .. import gen as G
from .. import model, runner, sched
from .. import world as W
from . import path

ID = "C09"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 20000
COMPONENTS = {
    "real": path.COMPONENTS["real"] + ["Python threads (one at a time, switched where the plan says)"],
    "stub": path.COMPONENTS["stub"] + ["thread scheduler (baton, sys.settrace in library code)"],
}
ASSUMPTIONS = path.ASSUMPTIONS + [
    "threads switch between lines or bytecode instructions of the library, not inside numpy, scipy or print",
    "models with a log file are not run in threads (standard output belongs to the process)",
]
STATES = "distinct (switching unit, models, sharing, faults, outcomes)"
RULE = (
    "2-4 generated models, their calls, solver faults, crashes and the switching plan from (VERIF_SEED, C09, i); "
    "each model is compared with itself alone in a pristine process. Non-trivial: threads or calls interleaved; "
    "distinct by event logs and switch sequence"
)
PROBES = ("unit.calls", "unit.line", "unit.opcode", "unit.solve", "share.core", "share.spec", "share.labels",
          "probe.crashed_neighbour", "probe.many_switches")


def small(rng, **kw):
    fam = rng.choice(["bar", "bar", "twobar", "twobar", "tripod"])
    return G.scenario(rng, max_steps=2, family=fam, incs=rng.choice([2, 3, 4]), **kw)


def gen(rng, i, tier):
    unit = ["calls", "line", "line", "solve", "calls", "opcode", "line", "solve"][i % 8]
    n = rng.choice([2, 2, 2, 3, 3, 4]) if unit != "opcode" else 2
    share = rng.choice(["none", "labels", "labels", "spec", "core", "core"])
    first = small(rng)
    models = []
    for k in range(n):
        if share in ("spec", "core"):
            spec = json.loads(json.dumps(first))
            if k and rng.random() < 0.7:
                nsteps = spec["settings"].get("nsteps", 1)
                spec["settings"] = G.settings(rng, spec, nsteps=nsteps, incs=rng.choice([2, 3, 4]))
        else:
            spec = small(rng)
            if share == "labels":
                ren = {l: j + 1 for j, (l, _) in enumerate(spec["nodes"])}
                spec["nodes"] = [[ren[l], c] for l, c in spec["nodes"]]
                spec["bounds"] = [[ren[l], v] for l, v in spec["bounds"]]
                spec["forces"] = [[ren[l], f] for l, f in spec["forces"]]
                spec["elements"] = [
                    [j + 1, [ren[a] for a in e[1]], *e[2:]] for j, e in enumerate(spec["elements"])
                ]
        spec["log"] = rng.choice([0, 0, 1, 2])
        faults = G.faults(rng, 30, spec) if rng.random() < 0.5 else []
        crash = None
        if rng.random() < 0.35:
            crash = ["solve", rng.randrange(0, 30), rng.choice(["MemoryError", "RuntimeError", "KeyboardInterrupt"])]
        models.append(
            dict(spec=spec, faults=faults, crash=crash, rounds=rng.choice([1, 1, 2]), edit=rng.random() < 0.3,
                 api=rng.choice(["single", "list", "raw"]), logfile=unit == "calls" and rng.random() < 0.3)
        )
    plan = []
    if unit == "calls":
        plan = [[rng.randrange(n), rng.choice([1, 1, 2, 3, 8]), rng.random() < 0.15] for _ in range(rng.choice([5, 20, 60]))]
    else:
        m = rng.choice([3, 10, 40, 120])
        for _ in range(m):
            if unit == "solve":
                u = rng.choice([1, 1, 2, 3, 8, 20])
            elif unit == "opcode":
                u = int(10 ** rng.uniform(0, 3.8))
            else:
                u = int(10 ** rng.uniform(0, 3.3))
            plan.append([rng.randrange(n), u])
    rest = {"calls": rng.choice([1, 3]), "solve": rng.choice([1, 2, 7]), "line": rng.choice([40, 150, 997]),
            "opcode": rng.choice([500, 3001])}[unit]
    return dict(unit=unit, share=share, models=models, plan=plan, rest=rest)


class Actor:
    "one model and the calls made for it, one after the other"

    def __init__(self, case, k, core=None):
        self.k = k
        self.d = case["models"][k]
        self.spec = self.d["spec"]
        self.core = core
        self.w = W.World(self.d["faults"], budget=4000, crash=self.d["crash"], name=f"m{k}")
        self.m = None
        self.outcomes = []
        self.pos = 0
        self.calls = self.script()

    def script(self):
        import trusspy as tp

        def create():
            kw = dict(logfile=True, logfile_name=f"log{self.k}") if self.d.get("logfile") else {}
            self.m = tp.Model(log=self.spec["log"], **kw)
            model.apply_settings(self.m, self.spec["settings"])

        def defs():
            c = self.core or model.make_core(self.spec)
            self.core = c
            if self.d["api"] == "list":
                yield lambda: self.m.Nodes.add_nodes(c["nodes"])
                yield lambda: self.m.Elements.add_elements(c["elements"])
                if c["bounds"]:
                    yield lambda: self.m.Boundaries.add_bounds_U(c["bounds"])
                yield lambda: self.m.ExtForces.add_forces(c["forces"])
            elif self.d["api"] == "single":
                for x in c["nodes"]:
                    yield lambda x=x: self.m.Nodes.add_node(x)
                for x in c["elements"]:
                    yield lambda x=x: self.m.Elements.add_element(x)
                for x in c["bounds"]:
                    yield lambda x=x: self.m.Boundaries.add_bound_U(x)
                for x in c["forces"]:
                    yield lambda x=x: self.m.ExtForces.add_force(x)
            else:
                s = self.spec
                for l, x in s["nodes"]:
                    yield lambda l=l, x=x: self.m.Nodes.add_node(l, x)
                for l, x, mt, mp, gp in s["elements"]:
                    yield lambda l=l, x=x, mt=mt, mp=mp, gp=gp: self.m.Elements.add_element(
                        l, x, 1, mt, list(mp), list(gp)
                    )
                for l, x in s["bounds"]:
                    yield lambda l=l, x=x: self.m.Boundaries.add_bound_U(l, x)
                for l, x in s["forces"]:
                    yield lambda l=l, x=x: self.m.ExtForces.add_force(l, x)

        calls = [create] + list(defs())

        def edit():
            self.m.Elements.assign_geometry("all", [1.25])
            mp = list(self.m.Elements.material_properties[0])
            mp[0] *= 1.5
            self.m.Elements.assign_material("all", mp)

        for r in range(self.d["rounds"]):
            if r and self.d["edit"]:
                calls.append(edit)
            calls += [self.build, self.run, self.take]
        return calls

    def build(self):
        self.m.build()

    def run(self):
        self.m.run()

    def take(self):
        R = list(self.m.Results.R) if hasattr(self.m, "Results") else []
        self.outcomes.append(
            [model.digest([model.snap(r)]) for r in R]
            + [model.b(list(getattr(getattr(self.m, "Results", None), "step_lpf_end", []))).hex()]
        )

    def step(self):
        "make the next call -> False if there was none"
        if self.pos >= len(self.calls):
            return False
        fn = self.calls[self.pos]
        self.pos += 1
        with W.active(self.w):
            try:
                fn()
            except W.SimBudget:
                self.outcomes.append("budget")
            except (Exception, KeyboardInterrupt) as e:
                self.outcomes.append(f"{type(e).__name__}: {e}")
                if fn == self.build and self.pos < len(self.calls) and self.calls[self.pos] == self.run:
                    self.pos += 1  # there is nothing to run
        return True

    def final(self):
        "results read again at the very end"
        if self.m is not None and hasattr(self.m, "Results"):
            self.take()
        return self.outcomes


def alone(case, k):
    a = Actor(case, k)
    old, sys.stdout = sys.stdout, W.Out()
    try:
        while a.step():
            pass
        return dict(out=a.final(), solves=a.w.nsolve, log=a.w.digest())
    finally:
        sys.stdout = old


def together(case):
    core = model.make_core(case["models"][0]["spec"]) if case["share"] == "core" else None
    actors = [Actor(case, k, core) for k in range(len(case["models"]))]
    switches = inside = 0
    log = ""
    old, sys.stdout = sys.stdout, W.Out()
    try:
        if case["unit"] == "calls":
            switches, log = by_calls(case, actors)
        else:
            b = threads(case, actors)
            switches, inside, log = b.switches, b.inside, b.log.hexdigest()
    finally:
        sys.stdout = old
    stats = {}
    for a in actors:
        for k, v in a.w.stats.items():
            stats[k] = stats.get(k, 0) + v
    return dict(
        out=[a.final() for a in actors], switches=switches, inside=inside, log=log, stats=stats,
        logs=[a.w.digest() for a in actors], solves=sum(a.w.nsolve for a in actors),
    )


def by_calls(case, actors):
    order = []
    n = len(actors)

    def go(tid, count, other):
        for _ in range(count):
            if other:
                res = []
                t = threading.Thread(target=lambda: res.append(actors[tid].step()))
                t.start()
                t.join()
                more = res[0]
            else:
                more = actors[tid].step()
            if not more:
                return False
            order.append(tid)
        return True

    for tid, count, other in case["plan"]:
        go(tid % n, count, other)
    live = list(range(n))
    while live:
        live = [t for t in live if go(t, case["rest"], False)]
    return sum(a != b for a, b in zip(order, order[1:])), str(order)


def threads(case, actors):
    def body(baton, tid):
        a = actors[tid]
        if case["unit"] == "solve":
            real = a.w.on_solve

            def on_solve(fn, b):
                baton.tick(tid, "solve")
                return real(fn, b)

            a.w.on_solve = on_solve
        while a.step():
            pass

    b = sched.Baton([body] * len(actors), case["plan"], unit=case["unit"], rest=case["rest"])
    b.run()
    return b


def run(case, rep):
    base = [runner.forked(lambda k=k: alone(case, k)) for k in range(len(case["models"]))]
    got = together(case)
    rep.stats["unit." + case["unit"]] += 1
    rep.stats["share." + case["share"]] += 1
    rep.stats["preempt.switches"] += got["switches"]
    rep.stats["preempt.in_library"] += got["inside"]
    rep.stats["solves"] += got["solves"]
    rep.stats.update(got["stats"])
    rep.sim_s += 0.005 * got["solves"]
    rep.part(got["log"], got["logs"], got["out"])
    rep.nontrivial = got["switches"] > 0
    crashed = any(k.startswith("crash") for k in got["stats"])
    if crashed:
        rep.stats["probe.crashed_neighbour"] += 1
    if got["switches"] > 50:
        rep.stats["probe.many_switches"] += 1
    rep.key(case["unit"], len(base), case["share"], crashed, any(k.startswith("fault") for k in got["stats"]),
            [len(b["out"]) for b in base])
    for k, (a, b) in enumerate(zip(base, got["out"])):
        if a["out"] == b:
            continue
        rep.bad("influenced", f"model {k + 1} of {len(base)} ({case['unit']}, sharing {case['share']}): {where(a['out'], b)}")
        return


def where(a, b):
    for x, y in zip(a, b):
        if x == y:
            continue
        if isinstance(x, str) or isinstance(y, str):
            return f"a call ended with {short(y)} instead of {short(x)}"
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q and i < min(len(x), len(y)) - 1:
                return f"result entry {i} differs from the model alone"
        if len(x) != len(y):
            return f"{len(y) - 1} result entries, alone it has {len(x) - 1}"
        return "reached load factors differ from the model alone"
    return f"{len(b)} outcomes instead of {len(a)}"


def short(v):
    return v[:80] if isinstance(v, str) else "results"


def shrink(case):
    if len(case["models"]) > 2:
        for drop in range(len(case["models"])):
            yield dict(case, models=case["models"][:drop] + case["models"][drop + 1 :])
    for p in runner.shrink_list(case["plan"]):
        yield dict(case, plan=p)
    for k, d in enumerate(case["models"]):
        def put(e):
            return dict(case, models=case["models"][:k] + [e] + case["models"][k + 1 :])

        if d["crash"]:
            yield put(dict(d, crash=None))
        for f in runner.shrink_faults(d["faults"]):
            yield put(dict(d, faults=f))
        if d["rounds"] > 1:
            yield put(dict(d, rounds=1))
        if d["edit"]:
            yield put(dict(d, edit=False))
        if case["share"] != "core":
            for s in runner.shrink_spec(d["spec"]):
                yield put(dict(d, spec=s))
    if case["share"] != "none":
        yield dict(case, share="none")
