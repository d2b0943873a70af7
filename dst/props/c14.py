"""C14: the reported durations are the true wall and CPU time of each phase."""
import os
import re
import sys

from .. import boot
from .. import gen as G
from .. import model, runner
from .. import world as W
from . import path

ID = "C14"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 100000
COMPONENTS = {
    "real": path.COMPONENTS["real"] + ["log file on a real file system (scratch folder)"],
    "stub": ["all clocks of the process (virtual: perf_counter, monotonic, process_time, thread_time, time, os.times, "
             "clock_gettime)", "linear solver results where a fault is planned", "standard output (recorded)"],
}
ASSUMPTIONS = [
    "the work of a phase is where the program allocates arrays and solves linear systems; time passes there",
    "what the program does between entering build()/run() and its first clock reading may or may not be counted "
    "(up to four allocations at each end of the phase)",
    "a report is owed by a run that ends without an error at log level 2 or higher",
]
STATES = "distinct (calls and outcomes, CPU/wall ratio class, jumps, stalls, log level, log file)"
RULE = (
    "1-2 models on one process clock, repeated builds and runs, idle time, stalls, system time jumps and solver faults "
    "from (VERIF_SEED, C14, i); the reported figures are compared with the virtual clocks. Non-trivial: time was not "
    "uniform (a stall, jump, idle time or a fault)"
)
PROBES = ("probe.report", "probe.rebuilt", "probe.jump", "probe.stall", "probe.idle", "probe.cpu_above_wall",
          "probe.failed_call", "probe.two_models", "probe.logfile", "probe.negative_jump")

LINE = re.compile(r'(cpu|wall)[^"\n]*"?(build|run)\b"?[^0-9\n+-]*([-+]?[0-9.]+(?:e[-+]?\d+)?|nan|inf)', re.I)


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2])
    models = []
    for k in range(n):
        spec = G.scenario(rng, max_steps=rng.choice([2, 2, 4]), incs=rng.choice([1, 1, 2, 3, 5]),
                          family=G.pick(rng, [("bar", 4), ("twobar", 3), ("tripod", 3), ("dome", 1)]))
        spec["log"] = rng.choice([2, 2, 2, 3, 1])
        models.append(dict(spec=spec, logfile=rng.random() < 0.3))
    mag = lambda lo, hi: G.r4(10 ** rng.uniform(lo, hi))  # noqa: E731
    clock = dict(
        wall=[mag(-3, 2) for _ in range(rng.choice([1, 2, 5]))],
        cpu=[rng.choice([0.0, mag(-3, 1.5)]) for _ in range(rng.choice([1, 2, 5]))],
        awall=rng.choice([0.0, mag(-3, 0), mag(-3, 0)]),
        acpu=rng.choice([0.0, mag(-3, 0), mag(-3, 0)]),
        o_cpu=rng.choice([0.0, mag(-2, 5)]),
        o_perf=rng.choice([0.0, -mag(0, 4), mag(0, 6)]),
        o_mono=mag(0, 6),
        o_time=rng.choice([0.0, 1.7e9, 2.2e9]),
    )
    jumps = [[rng.randrange(0, 40), rng.choice([-1, 1]) * rng.choice([1, 60, 3600, 86400, 3.2e7])]
             for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
    ajumps = [[rng.randrange(0, 60), rng.choice([-1, 1]) * rng.choice([1, 3600, 86400])]
              for _ in range(rng.choice([0, 0, 1, 2]))]
    stalls = [[rng.choice(["solve", "alloc"]), rng.randrange(0, 60), mag(0, 4), rng.choice([0.0, mag(-2, 2)])]
              for _ in range(rng.choice([0, 1, 1, 3]))]
    clock.update(jumps=jumps, ajumps=ajumps, stalls=stalls)
    left = {k: sum([rng.choice([["build", "run"], ["build", "run"], ["build", "build", "run"]])
                    for _ in range(rng.choice([1, 1, 2, 3]))], []) for k in range(n)}
    seq = []
    while left:
        k = rng.choice(list(left))
        if rng.random() < 0.35:
            seq.append(["idle", G.r4(10 ** rng.uniform(-2, 5)), rng.choice([0.0, mag(-2, 3)]),
                        rng.choice([0, 0, 3600, -3600])])
        seq.append([left[k].pop(0), k])
        if not left[k]:
            del left[k]
    crash = None
    if rng.random() < 0.2:
        crash = ["solve", rng.randrange(0, 30), rng.choice(["MemoryError", "RuntimeError", "KeyboardInterrupt"])]
    return dict(models=models, clock=clock, seq=seq, crash=crash,
                faults=G.faults(rng, 40, models[0]["spec"]) if rng.random() < 0.3 else [])


class Clock(W.Clock):
    "virtual clocks that keep a record of the work of the current phase"

    def __init__(self, plan):
        super().__init__(plan)
        self.na = 0
        self.work = []
        self.fired = set()

    def _stall(self, what, k):
        wall = cpu = 0.0
        for seam, at, w, c in self.p["stalls"]:
            if seam == what and at == k:
                wall, cpu = wall + w, cpu + c
                self.fired.add("stall")
        return wall, cpu

    def _note(self, what, before, extra):
        self._add(*extra)
        self.work.append((what, self.wall - before[0], self.cpu - before[1]))

    def solve(self):
        b = self.wall, self.cpu
        for at, d in self.p["jumps"]:
            if at == self.n:
                self.fired.add("jump" if d > 0 else "negative_jump")
        extra = self._stall("solve", self.n)
        super().solve()
        self._note("solve", b, extra)

    def alloc(self):
        b = self.wall, self.cpu
        for at, d in self.p["ajumps"]:
            if at == self.na:
                self.jump += int(d * 1e9)
                self.fired.add("jump" if d > 0 else "negative_jump")
        extra = self._stall("alloc", self.na)
        super().alloc()
        self.na += 1
        self._note("alloc", b, extra)

    def phase(self):
        self.work = []
        return None

    def bounds(self):
        "what the work since phase() took: ((wall least, most), (cpu least, most)) in s"
        core = list(self.work)
        for end in (0, -1):
            for _ in range(4):
                if core and core[end][0] == "alloc":
                    core.pop(end)
                else:
                    break
        return tuple((sum(x[j] for x in core) / 1e9, sum(x[j] for x in self.work) / 1e9) for j in (1, 2))


def parse(text):
    out = {}
    for line in text.splitlines():
        g = LINE.search(line)
        if g and "time" in line:
            out.setdefault((g.group(1).lower(), g.group(2).lower()), []).append(float(g.group(3)))
    return out


def run(case, rep):
    import trusspy as tp

    clock = Clock(case["clock"])
    w = W.World(case["faults"], budget=1500, clock=clock, alloc=set(), crash=case["crash"])
    models, seen, built, calls = [], [], [], []
    root = os.getcwd()
    out = sys.stdout = W.Out()
    for k, d in enumerate(case["models"]):
        kw = dict(logfile=True, logfile_name=os.path.join(root, f"log{k}")) if d["logfile"] else {}
        with W.active(w):
            m = tp.Model(log=d["spec"]["log"], **kw)
        model.define(m, d["spec"])
        model.apply_settings(m, d["spec"]["settings"])
        models.append(m)
        seen.append(0)
        built.append(None)
    if len(models) > 1:
        rep.stats["probe.two_models"] += 1
    nbuilds = [0] * len(models)
    ok_state = [None] * len(models)
    idle = False
    for item in case["seq"]:
        if item[0] == "idle":
            clock.idle(item[1], item[2])
            clock.jump += int(item[3] * 1e9)
            rep.stats["probe.idle"] += 1
            idle = True
            continue
        what, k = item
        if what == "run" and ok_state[k] != "built":
            continue
        clock.phase()
        mark = len(out.text())
        logged = case["models"][k]["logfile"]
        with W.active(w):
            try:
                getattr(models[k], what)()
                status = "ok"
            except W.SimBudget:
                status = "budget"
            except (Exception, KeyboardInterrupt) as e:
                status = type(e).__name__
        calls.append((what, k, status))
        if status == "budget":
            break
        if status != "ok":
            rep.stats["probe.failed_call"] += 1
        if what == "build":
            built[k] = clock.bounds()
            nbuilds[k] += 1
            ok_state[k] = "built" if status == "ok" else None
            continue
        ok_state[k] = None
        if status != "ok" or case["models"][k]["spec"]["log"] < 2:
            continue
        text = out.text()[mark:]
        if logged:
            with boot.real_open(os.path.join(root, f"log{k}.md")) as f:
                text = f.read()
            text, seen[k] = text[seen[k]:], len(text)
            rep.stats["probe.logfile"] += 1
        got = parse(text)
        want = {}
        for name, bnd in (("build", built[k]), ("run", clock.bounds())):
            want["wall", name], want["cpu", name] = bnd
        if want["cpu", "run"][0] > want["wall", "run"][1]:
            rep.stats["probe.cpu_above_wall"] += 1
        for key, (lo, hi) in want.items():
            v = got.get(key)
            where = f"call {len(calls)} ({len(case['models'])} models, build {nbuilds[k]} of the model)"
            if not v:
                rep.bad("missing", f"{where}: no {key[0]} time of the {key[1]} in the report")
                continue
            rep.stats["probe.report"] += 1
            tol = 6e-4 + 1e-9 * hi
            if len(v) != 1 or not lo - tol <= v[0] <= hi + tol:
                other = [f"{a} time of the {c}" for (a, c), (l2, h2) in want.items()
                         if (a, c) != key and l2 - tol <= v[0] <= h2 + tol and h2 > 0]
                rep.bad("wrong-" + key[0], f"{where}: {key[0]} time of the {key[1]} is reported as "
                        f"{', '.join(f'{x:.3f}' for x in v)} s, it took {lo:.3f} to {hi:.3f} s"
                        + (f" (that is the {other[0]})" if other else ""))
        rep.part([(key, got.get(key)) for key in sorted(want)])
        if nbuilds[k] > 1:
            rep.stats["probe.rebuilt"] += 1
    for x in clock.fired:
        rep.stats["probe." + x] += 1
        rep.stats["fault.clock." + x] += 1
        rep.nontrivial = True
    if idle:
        rep.nontrivial = True
    rep.world(w)
    rep.part(calls)
    rep.key(calls, sorted(clock.fired), idle, [m["spec"]["log"] for m in case["models"]],
            [m["logfile"] for m in case["models"]])


def shrink(case):
    for s in runner.shrink_list(case["seq"], least=2):
        yield dict(case, seq=s)
    if case["crash"]:
        yield dict(case, crash=None)
    for f in runner.shrink_faults(case["faults"]):
        yield dict(case, faults=f)
    c = case["clock"]
    for name in ("jumps", "ajumps", "stalls"):
        for s in runner.shrink_list(c[name]):
            yield dict(case, clock=dict(c, **{name: s}))
    for name in ("o_cpu", "o_perf", "o_mono", "o_time", "awall", "acpu"):
        if c[name]:
            yield dict(case, clock=dict(c, **{name: 0.0}))
    for name in ("wall", "cpu"):
        if c[name] != [1.0]:
            yield dict(case, clock=dict(c, **{name: [1.0]}))
    for k, d in enumerate(case["models"]):
        if d["logfile"]:
            yield dict(case, models=case["models"][:k] + [dict(d, logfile=False)] + case["models"][k + 1 :])
        for s in runner.shrink_spec(d["spec"]):
            yield dict(case, models=case["models"][:k] + [dict(d, spec=s)] + case["models"][k + 1 :])
