"""C10: rebuilding always starts clean."""
import contextlib
import json
import sys

from .. import gen as G
from .. import model, runner, sched
from .. import world as W
from . import path

ID = "C10"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 60000
COMPONENTS = {
    "real": path.COMPONENTS["real"] + ["trusspy.tools plots (some histories)"],
    "stub": path.COMPONENTS["stub"] + ["clocks (virtual)", "array allocation in the handlers (may fail)"],
}
ASSUMPTIONS = path.ASSUMPTIONS + [
    "an interruption arrives between two lines of library code, in a solver call, at a clock read, at an "
    "allocation or while printing",
    "run() follows a build()",
]
STATES = "distinct (number of edits, builds, kinds of abort, outcome of the final analysis)"
RULE = (
    "history of edits, builds and runs (with solver faults, crashes, interruptions, failing allocations and "
    "output) from (VERIF_SEED, C10, i); then the final analysis is compared with a fresh model in a pristine "
    "process. Non-trivial: a fault or an abort fired"
)
PROBES = ("abort.solve", "abort.clock", "abort.write", "abort.line", "abort.alloc", "abort.build", "probe.held",
          "op.force", "op.bound", "op.elem", "op.material", "op.geometry", "op.coord", "op.addnode", "op.delnode",
          "op.steps", "op.set", "probe.plastic_final", "probe.ok_final")

EXC = ["MemoryError", "RuntimeError", "KeyboardInterrupt", "FloatingPointError", "SystemExit"]
CLOCK = dict(wall=[0.01], cpu=[0.01], awall=1e-3, acpu=1e-3)


def crash(rng, what):
    seam = rng.choice(["solve", "clock", "write", "line", "line", "alloc"])
    if what == "build":
        seam = rng.choice(["clock", "line", "line", "alloc", "write"])
    idx = {
        "solve": lambda: int(rng.random() ** 2 * 40),
        "clock": lambda: rng.randrange(0, 5),
        "write": lambda: int(rng.random() ** 2 * 200),
        "line": lambda: int(10 ** rng.uniform(0, 2.2 if what == "build" else 4.3)),
        "alloc": lambda: rng.randrange(0, 12 if what == "build" else 400),
    }[seam]()
    return [seam, idx, rng.choice(EXC) if seam != "write" else rng.choice(["BrokenPipeError", "KeyboardInterrupt", "OSError"])]


class Editor:
    "makes edits and keeps the definition they lead to"

    def __init__(self, rng, spec):
        self.rng, self.spec = rng, spec
        self.cols = len(spec["forces"][0][1])
        self.extra = []

    def labels(self, k):
        return [x[0] for x in self.spec[k]]

    def put(self, k, item):
        self.spec[k] = [x for x in self.spec[k] if x[0] != item[0]] + [item]

    def drop(self, k, label):
        self.spec[k] = [x for x in self.spec[k] if x[0] != label]

    def get(self, k, label):
        return next(x for x in self.spec[k] if x[0] == label)

    def edit(self):
        rng, s = self.rng, self.spec
        kind = rng.choice(["force", "force", "bound", "elem", "material", "geometry", "coord", "addnode", "delnode",
                           "set", "set", "elems", "steps"])
        if kind == "force":
            l = rng.choice(self.labels("nodes"))
            have = l in self.labels("forces")
            if have and len(s["forces"]) > 1 and rng.random() < 0.25:
                self.drop("forces", l)
                return ["delforce", l]
            if have:
                old = self.get("forces", l)[1]
                f = [G.r4(x * rng.choice([0, 1, 1, 0.7, 1.3])) for x in old]
            else:
                f = [G.r4(rng.uniform(-0.02, 0.02)) for _ in range(self.cols)]
            self.put("forces", [l, f])
            return ["force", l, f, have]
        if kind == "steps":
            # another number of load steps: all forces are given anew, in any order
            n = rng.choice([1, 2, 3])
            self.cols = 3 * n
            new = []
            for l, f in rng.sample(s["forces"], len(s["forces"])):
                f = [G.r4(x * rng.choice([1, 1, 0.7, 1.3])) for x in f]
                new.append([l, (f * n)[: self.cols]])
            s["forces"] = json.loads(json.dumps(new))
            sets = [["nsteps", n]]
            if isinstance(s["settings"].get("incs"), list):
                sets.append(["incs", rng.choice([1, 2, 3])])
            x = s["settings"].get("xlimit")
            if isinstance(x, list) and isinstance(x[0], list):
                sets.append(["xlimit", x[0]])
            for key, v in sets:
                s["settings"][key] = v
            return ["steps", new, sets]
        if kind == "bound":
            l = rng.choice(self.labels("nodes"))
            have = l in self.labels("bounds")
            if have and rng.random() < 0.2:
                self.drop("bounds", l)
                return ["delbound", l]
            v = rng.choice([[0, 0, 0], [1, 1, 1], [1, 0, 1], [0, 0, 1], [1, 0, 0], [1, 1, 0]])
            if have and rng.random() < 0.6:
                v = self.get("bounds", l)[1]
            self.put("bounds", [l, v])
            return ["bound", l, v, have]
        if kind in ("elem", "elems"):
            l = rng.choice(self.labels("elements"))
            e = json.loads(json.dumps(self.get("elements", l)))
            e[3] = [G.r4(e[3][0] * rng.uniform(0.7, 1.4))] + e[3][1:]
            e[4] = [G.r4(e[4][0] * rng.uniform(0.7, 1.4))]
            self.put("elements", e)
            return ["elem", e]
        if kind == "material":
            w = len(s["elements"][0][3])
            every = rng.random() < 0.5
            ls = self.labels("elements") if every else rng.sample(self.labels("elements"), rng.randrange(1, len(s["elements"]) + 1))
            mp = [G.r4(rng.uniform(0.7, 1.4) * s["elements"][0][3][0])]
            mt = None
            if rng.random() < 0.5:
                mp += [G.r4(0.2 * mp[0]), G.r4(0.03 * mp[0])]
                mt = rng.choice([1, 2, 2])
            width = max(w, len(mp))
            for e in s["elements"]:
                # a material that needs more values never gets fewer
                e[3] = e[3] + [0.0] * (width - len(e[3]))
                if e[0] in ls:
                    e[3] = mp + [0.0] * (width - len(mp))
                    if mt is not None:
                        e[2] = mt
                    elif e[2] == 2 and len(mp) < 3:
                        e[2] = 2
            if mt is None and len(mp) < 3 and any(e[2] == 2 for e in s["elements"] if e[0] in ls):
                # elastic-plastic without a yield stress: make it elastic
                for e in s["elements"]:
                    if e[0] in ls:
                        e[2] = 1
                mt = 1
            return ["material", "all" if every else ls, mp, mt]
        if kind == "geometry":
            every = rng.random() < 0.5
            ls = self.labels("elements") if every else rng.sample(self.labels("elements"), rng.randrange(1, len(s["elements"]) + 1))
            gp = [G.r4(rng.uniform(0.5, 2))]
            for e in s["elements"]:
                if e[0] in ls:
                    e[4] = gp
            return ["geometry", "all" if every else ls, gp]
        if kind == "coord":
            l = rng.choice(self.labels("nodes"))
            c = [G.r4(x + (rng.uniform(-0.05, 0.05) if x else 0)) for x in self.get("nodes", l)[1]]
            self.put("nodes", [l, c])
            return ["coord", l, c]
        if kind == "addnode":
            l = max(self.labels("nodes")) + rng.randrange(1, 5)
            el = max(self.labels("elements")) + rng.randrange(1, 5)
            to = rng.choice(self.labels("nodes"))
            base = self.get("nodes", to)[1]
            c = [G.r4(x + rng.choice([-1, 1]) * rng.uniform(0.5, 1.0)) for x in base]
            proto = json.loads(json.dumps(self.get("elements", rng.choice(self.labels("elements")))))
            e = [el, [to, l], proto[2], proto[3], proto[4]]
            self.put("nodes", [l, c])
            self.put("elements", e)
            op = ["addnode", l, c, e]
            if rng.random() < 0.8:
                self.put("bounds", [l, [0, 0, 0]])
                op.append([0, 0, 0])
            else:
                op.append(None)
            self.extra.append([l, el])
            return op
        if kind == "delnode" and self.extra:
            l, el = self.extra.pop()
            had = [l in self.labels("bounds"), l in self.labels("forces")]
            if had[1] and len(s["forces"]) == 1:
                self.extra.append([l, el])
                return self.edit()
            for k, x in (("nodes", l), ("elements", el), ("bounds", l), ("forces", l)):
                self.drop(k, x)
            return ["delnode", l, el, *had]
        if kind == "delnode":
            return self.edit()
        st = s["settings"]
        key = rng.choice(["incs", "du", "dlpf", "nfev", "cycl", "stepcontrol", "xtol", "nsteps", "xlimit", "j_pre", "log"])
        steps = self.cols // 3
        if key == "log":
            v = rng.choice([0, 1, 2])
            s["log"] = v
            return ["set", "log", v]
        v = {
            "incs": lambda: rng.choice([1, 2, 3, 4]) if rng.random() < 0.5 else [rng.choice([1, 2, 3]) for _ in range(steps)],
            "du": lambda: G.r4(st["du"] * rng.choice([0.5, 2])),
            "dlpf": lambda: G.r4(st["dlpf"] * rng.choice([0.5, 2])),
            "nfev": lambda: rng.choice([4, 8, 12]),
            "cycl": lambda: rng.choice([2, 4, 6]),
            "stepcontrol": lambda: rng.random() < 0.5,
            "xtol": lambda: rng.choice([4, 8]),
            "nsteps": lambda: rng.randrange(1, steps + 1),
            "xlimit": lambda: rng.choice([[0, None], [1, G.r4(st["du"] * 2.5)], [0, G.r4(st["dlpf"] * 2.5)]]),
            "j_pre": lambda: rng.random() < 0.5,
        }[key]()
        st[key] = v
        if key == "nsteps" and isinstance(st.get("xlimit"), list) and isinstance(st["xlimit"][0], list):
            st["xlimit"] = st["xlimit"][0]
            return ["set2", [["nsteps", v], ["xlimit", st["xlimit"]]]]
        return ["set", key, v]


def gen(rng, i, tier):
    fam = rng.choice(["bar", "bar", "twobar", "twobar", "tripod", "planar"])
    spec = G.scenario(rng, max_steps=3, family=fam, incs=rng.choice([2, 3, 4, 5]))
    start = json.loads(json.dumps(spec))
    ed = Editor(rng, spec)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        what = rng.choice(["edit", "edit", "edit", "analyse", "analyse", "build"])
        if what == "edit":
            ops.append(json.loads(json.dumps(ed.edit())))
        elif what == "build":
            ops.append(["build", crash(rng, "build") if rng.random() < 0.4 else None])
        else:
            fl = G.faults(rng, 40, spec) if rng.random() < 0.4 else []
            ops.append(["analyse", fl, crash(rng, "run") if rng.random() < 0.5 else None])
    if not any(o[0] in ("analyse", "build") for o in ops):
        ops.insert(0, ["analyse", [], crash(rng, "run") if rng.random() < 0.5 else None])
    fl = G.faults(rng, 40, spec) if rng.random() < 0.3 else []
    return dict(start=start, ops=ops, end=spec, faults=fl, plots=rng.random() < 0.03)


def apply(m, op):
    k = op[0]
    N, E, B, F = m.Nodes, m.Elements, m.Boundaries, m.ExtForces
    if k == "force":
        if op[3]:
            F.del_force(op[1])
        F.add_force(op[1], op[2])
    elif k == "steps":
        for l, _ in op[1]:
            F.del_force(l)
        for l, f in op[1]:
            F.add_force(l, f)
        model.apply_settings(m, dict(op[2]))
    elif k == "delforce":
        F.del_force(op[1])
    elif k == "bound":
        if op[3]:
            B.del_bound_U(op[1])
        B.add_bound_U(op[1], op[2])
    elif k == "delbound":
        B.del_bound_U(op[1])
    elif k == "elem":
        l, conn, mt, mp, gp = op[1]
        E.del_element(l)
        E.add_element(l, conn=conn, mat_type=mt, material_properties=mp, geometric_properties=gp)
    elif k == "material":
        E.assign_material(op[1], op[2], mtype=op[3])
    elif k == "geometry":
        E.assign_geometry(op[1], op[2])
    elif k == "coord":
        N.del_node(op[1])
        N.add_node(op[1], op[2])
    elif k == "addnode":
        l, conn, mt, mp, gp = op[3]
        N.add_node(op[1], op[2])
        E.add_element(l, conn=conn, mat_type=mt, material_properties=mp, geometric_properties=gp)
        if op[4] is not None:
            B.add_bound_U(op[1], op[4])
    elif k == "delnode":
        E.del_element(op[2])
        N.del_node(op[1])
        if op[3]:
            B.del_bound_U(op[1])
        if op[4]:
            F.del_force(op[1])
    elif k == "set":
        model.apply_settings(m, {op[1]: op[2]})
    elif k == "set2":
        model.apply_settings(m, dict(op[1]))


class Session:
    def __init__(self, case, rep):
        self.case, self.rep = case, rep
        self.held = []
        self.m = model.make(case["start"])

    def hold(self):
        r = getattr(self.m, "Results", None)
        if r is not None:
            ends = list(getattr(r, "step_lpf_end", []))
            self.held.append((r, list(r.R), [model.snap(x) for x in r.R], model.b(ends)))

    def go(self, faults, plan, what):
        "one build (and run), aborted as planned"
        rep = self.rep
        c = plan if plan and plan[0] in ("solve", "clock", "write") else None
        w = W.World(faults, budget=4000, crash=c, clock=CLOCK,
                    alloc={plan[1]} if plan and plan[0] == "alloc" else None)
        sys.stdout = W.Out(w)
        tr = contextlib.nullcontext()
        if plan and plan[0] == "line":
            tr = sched.LineCrash(plan[1], W.make_exc(plan[2]), w)
        self.hold()
        status = "ok"
        with W.active(w):
            stage = "build"
            try:
                with tr:
                    self.m.build()
                    if what == "analyse":
                        stage = "run"
                        self.m.run()
            except W.SimBudget:
                status = "budget"
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                status = type(e).__name__
                fired = [k for k in w.stats if k.startswith("crash.") or k == "fault.alloc"]
                if fired:
                    rep.stats["abort." + plan[0]] += 1
                    rep.stats["abort." + stage] += 1
        rep.world(w)
        rep.part(status)
        return status


def run(case, rep):
    ref = runner.forked(lambda: fresh(case))
    old = sys.stdout
    try:
        s = Session(case, rep)
        states = []
        for op in case["ops"]:
            if op[0] == "analyse":
                states.append(s.go(op[1], op[2], "analyse"))
            elif op[0] == "build":
                states.append(s.go([], op[1], "build"))
            else:
                try:
                    apply(s.m, op)
                except Exception as e:
                    if not runner.from_library(e):
                        raise
                    rep.bad("edit-refused", f"edit {op[0]} of the history was refused: {type(e).__name__}: {e}")
                    return
                rep.stats["op." + op[0]] += 1
        if case["plots"] and hasattr(s.m, "Results") and s.m.Results.R:
            from .c08 import look

            try:
                look(s.m, "history")
            except Exception:
                pass
        s.hold()
        got = final(s.m, case, rep)
    finally:
        sys.stdout = old
    rep.part(got["status"], got["snaps"], got["ends"])
    rep.key(sum(o[0] not in ("analyse", "build") for o in case["ops"]), len(states), sorted(set(states)), got["status"])
    plastic = any(e[2] == 2 for e in case["end"]["elements"])
    if got["status"] == "ok":
        rep.stats["probe.ok_final"] += 1
        rep.stats["probe.plastic_final"] += plastic
    if got["status"] != ref["status"]:
        rep.bad("final-status", f"final analysis ended with {got['status']}, a fresh model with {ref['status']}")
        return
    d = model.diff(ref["snaps"], got["snaps"])
    if d:
        rep.bad("final-results", f"final analysis against a fresh model: {d}")
        return
    if got["ends"] != ref["ends"]:
        rep.bad("final-ends", "reached load factors differ from those of a fresh model")
        return
    for n, (h, R, snaps, ends) in enumerate(s.held):
        rep.stats["probe.held"] += 1
        now = [model.snap(r) for r in R]
        d = model.diff(snaps, now)
        if d:
            rep.bad("held-entry", f"results held from build {n + 1} changed afterwards: {d}")
            return
        if len(h.R) != len(R) or any(a is not b for a, b in zip(h.R, R)) or model.b(list(h.step_lpf_end)) != ends:
            rep.bad("held-handler", f"result list held from build {n + 1} changed afterwards")
            return


def final(m, case, rep=None):
    w = W.World(case["faults"], budget=20000)
    out = W.Out(w)
    old, sys.stdout = sys.stdout, out
    try:
        r = model.Run(m, w)
    finally:
        sys.stdout = old
    if rep is not None:
        rep.world(w)
    ends = model.b(list(getattr(getattr(m, "Results", None), "step_lpf_end", [])))
    if r.exc is not None and not hasattr(m, "Results"):
        return dict(status=r.status, snaps=[], ends="")
    built = r.status == "ok" or w.nsolve
    return dict(
        status=r.status,
        snaps=[{k: v.hex() for k, v in model.snap(x).items()} for x in r.R] if built else [],
        ends=ends.hex() if built else "",
    )


def fresh(case):
    return final(model.make(case["end"], api="single"), case)


def replay_spec(start, ops):
    "definition after the edits in ops"
    s = json.loads(json.dumps(start))

    def put(k, item):
        s[k] = [x for x in s[k] if x[0] != item[0]] + [item]

    def drop(k, l):
        s[k] = [x for x in s[k] if x[0] != l]

    for op in ops:
        k = op[0]
        if k == "force":
            put("forces", [op[1], op[2]])
        elif k == "steps":
            s["forces"] = [[l, f] for l, f in op[1]]
            s["settings"].update(dict(op[2]))
        elif k == "delforce":
            drop("forces", op[1])
        elif k == "bound":
            put("bounds", [op[1], op[2]])
        elif k == "delbound":
            drop("bounds", op[1])
        elif k == "elem":
            put("elements", op[1])
        elif k == "material":
            width = max(len(s["elements"][0][3]), len(op[2]))
            for e in s["elements"]:
                e[3] = e[3] + [0.0] * (width - len(e[3]))
                if op[1] == "all" or e[0] in op[1]:
                    e[3] = op[2] + [0.0] * (width - len(op[2]))
                    if op[3] is not None:
                        e[2] = op[3]
        elif k == "geometry":
            for e in s["elements"]:
                if op[1] == "all" or e[0] in op[1]:
                    e[4] = op[2]
        elif k == "coord":
            put("nodes", [op[1], op[2]])
        elif k == "addnode":
            put("nodes", [op[1], op[2]])
            put("elements", op[3])
            if op[4] is not None:
                put("bounds", [op[1], op[4]])
        elif k == "delnode":
            for t, l in (("nodes", op[1]), ("elements", op[2]), ("bounds", op[1]), ("forces", op[1])):
                drop(t, l)
        elif k == "set":
            if op[1] == "log":
                s["log"] = op[2]
            else:
                s["settings"][op[1]] = op[2]
        elif k == "set2":
            s["settings"].update(dict(op[1]))
    return s


def shrink(case):
    for ops in runner.shrink_list(case["ops"]):
        # edits that rely on dropped ones make the history invalid: keep pairs
        added = {o[1] for o in ops if o[0] == "addnode"}
        all_added = {o[1] for o in case["ops"] if o[0] == "addnode"}
        def refers(o):
            return o[0] in ("force", "delforce", "bound", "delbound", "coord", "delnode") and o[1] in all_added - added
        gone_elems = {o[3][0] for o in case["ops"] if o[0] == "addnode" and o[1] not in added}
        ops = [o for o in ops if not refers(o) and not (o[0] == "elem" and o[1][0] in gone_elems)]
        ops = [
            o if not (o[0] in ("material", "geometry") and o[1] != "all") else [o[0], [l for l in o[1] if l not in gone_elems], *o[2:]]
            for o in ops
        ]
        ops = consistent(case["start"], ops)
        yield dict(case, ops=ops, end=replay_spec(case["start"], ops))
    for i, o in enumerate(case["ops"]):
        put = lambda p: dict(case, ops=case["ops"][:i] + [p] + case["ops"][i + 1 :])  # noqa: E731
        if o[0] == "analyse":
            if o[2]:
                yield put([o[0], o[1], None])
            for f in runner.shrink_faults(o[1]):
                yield put([o[0], f, o[2]])
        if o[0] == "build" and o[1]:
            yield put(["build", None])
    for f in runner.shrink_faults(case["faults"]):
        yield dict(case, faults=f)
    if case["plots"]:
        yield dict(case, plots=False)


def consistent(start, ops):
    "the flag whether an item exists already, recomputed"
    out = []
    for o in ops:
        s = replay_spec(start, out)
        if o[0] in ("force", "bound"):
            k = {"force": "forces", "bound": "bounds"}[o[0]]
            o = [o[0], o[1], o[2], any(x[0] == o[1] for x in s[k])]
        if o[0] == "force" and len({len(f) for _, f in s["forces"]} | {len(o[2])}) > 1:
            continue
        if o[0] == "steps" and {l for l, _ in o[1]} != {l for l, _ in s["forces"]}:
            continue
        if o[0] == "delforce" and not any(x[0] == o[1] for x in s["forces"]):
            continue
        if o[0] == "delbound" and not any(x[0] == o[1] for x in s["bounds"]):
            continue
        out.append(o)
    return out
