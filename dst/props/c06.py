"""C06: every run ends within bounded work and for a legitimate reason."""
import math
import re

import numpy as np

from .. import gen as G
from .. import mech, model
from . import path

ID = "C06"
LEVEL = "exploration"
GEN_RUNS_CODE = True
QUICK, THOROUGH = 2200, 60000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS + [
    "liveness is claimed for well-posed trusses (undisturbed run without any recycled increment), adaptive "
    "control, at least 6 cycles and disturbances of at most two attempts each",
    "a report of giving up is a line with the word 'error' on the output",
]
RULE = (
    "modes from (VERIF_SEED, C06, i): random faults against random plans and limits; persistent fault from a "
    "chosen increment on (give up); short disturbances with adaptive control (liveness); mechanisms (singular "
    "stiffness). Non-trivial: a fault fired"
)
PROBES = (
    "probe.limit_stop", "probe.giveup", "probe.full", "mode.live", "mode.giveup", "mode.random", "mode.singular",
    "mode.cycles", "probe.live_ok", "probe.giveup_adaptive", "probe.undisturbed_ok",
)


def gen(rng, i, tier):
    mode = ["random", "live", "giveup", "random", "live", "cycles", "random", "singular"][i % 8]
    case = dict(
        random=g_random, live=g_live, giveup=g_giveup, cycles=g_cycles, singular=g_singular
    )[mode](rng, tier, i)
    case["mode"] = mode
    return case


def g_random(rng, tier, i):
    long = dict(incs=rng.choice([25, 30, 45, 60]), family=rng.choice(["bar", "twobar", "tripod"])) if i % 32 == 0 else {}
    case = path.gen_path(rng, i, **long)
    spec = case["spec"]
    s = spec["settings"]
    if rng.random() < 0.5:
        n = s.get("nsteps", 1)
        lims = [
            rng.choice([
                [0, G.r4(s["dlpf"] * rng.choice([0, 0.5, 0.5, 1.5, 1.5, 2.5, 2.5, 4.5]))],
                [rng.randrange(1, G.ndof1(spec) + 1), G.r4(s["du"] * rng.choice([0.1, 0.5, 1.5, 2.5]))],
            ])
            for _ in range(n)
        ]
        s["xlimit"] = lims if n > 1 and rng.random() < 0.7 else lims[0]
    return case


def g_singular(rng, tier, i):
    spec = G.truss(rng, family=rng.choice(["bar", "bar", "twobar", "planar"]), nsteps=rng.choice([1, 2]))
    free = rng.choice([[1, 1, 1], [1, 0, 1], [1, 1, 0]])
    spec["bounds"] = [[l, v if not any(v) else free] for l, v in spec["bounds"]]
    spec["settings"] = G.settings(rng, spec, nsteps=len(spec["forces"][0][1]) // 3)
    spec["log"] = rng.choice([0, 1, 2])
    return dict(spec=spec, faults=[], api="single")


def benign(rng, stepcontrol):
    fam = rng.choice(["bar", "bar", "twobar", "tripod", "planar"])
    spec = G.truss(rng, family=fam, plastic=rng.choice(["none", "none", "all"]) if fam == "bar" else "none",
                   nsteps=rng.choice([1, 1, 2, 3]), simple=rng.random() < 0.5, signs=[1, 1, 1])
    for e in spec["elements"]:  # well-posed beyond the yield point as well
        if e[2] == 2:
            e[3][1] = max(e[3][1], G.r4(0.02 * e[3][0]))
    n = len(spec["forces"][0][1]) // 3
    s = dict(
        nsteps=n, du=G.r4(0.02 * min(1.0, spec["h"])), dlpf=rng.choice([0.005, 0.01, 0.02]),
        stepcontrol=stepcontrol, incs=rng.choice([3, 4, 6, 8] if rng.random() < 0.95 else [26, 40]), cycl=rng.choice([6, 8]), nfev=rng.choice([8, 8, 10]),
    )
    if n > 1 and rng.random() < 0.5:
        s["incs"] = [rng.choice([2, 3, 5]) for _ in range(n)]
    if stepcontrol:
        s["reduce"] = rng.choice([2, 4, 8, 10])
        s["increase"] = rng.choice([0, 0.5, 1.0])
    if rng.random() < 0.3:
        s["j_pre"] = False
    if rng.random() < 0.3:
        s["j_fixed"], s["j0"] = True, G.ndof1(spec) + 1
    spec["settings"] = s
    spec["log"] = rng.choice([0, 0, 1, 2])
    return spec


def g_live(rng, tier, i):
    spec = benign(rng, True)
    s = spec["settings"]
    dry = path.PathRun(dict(spec=spec, faults=[]), None)
    T = max(dry.w.nsolve, 4)
    fl = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        cnt = rng.choice([1, 2, s["nfev"] - 1, s["nfev"], s["nfev"] + 1, 2 * s["nfev"]])
        f = G.fault(rng, rng.randrange(0, T), cnt, size=spec["h"])
        if not s.get("j_fixed"):
            # a corrupted but finite solution may hand the control over to a
            # component which hardly answers to the load; by design the steps
            # after it then overshoot until the cycles are used up
            f = [f[0], f[1], rng.choice(["nan", "inf", "stall"])]
        fl.append(f)
    fl.sort(key=lambda f: f[0])
    return dict(spec=spec, faults=fl, api="single")


def boundary(spec, p):
    "number of solves before increment p (1-based) of the first step"
    if p == 1:
        return 0
    s = dict(spec["settings"], nsteps=1, incs=p - 1)
    if s.get("xlimit") and isinstance(s["xlimit"][0], list):
        s["xlimit"] = s["xlimit"][0]
    return path.PathRun(dict(spec=spec, faults=[]), None, spec=dict(spec, settings=s)).w.nsolve


def g_giveup(rng, tier, i):
    sc = rng.random() < 0.5
    spec = benign(rng, sc)
    s = spec["settings"]
    s["cycl"] = rng.choice([2, 3, 4, 6])
    if sc:
        s["minfac"] = rng.choice([1e-2, 1e-3, 0.2])
    inc1 = s["incs"][0] if isinstance(s["incs"], list) else s["incs"]
    p = rng.randrange(1, inc1 + 1)
    kind = rng.choice(["nan", "inf", "stall"])
    return dict(spec=spec, faults=[[boundary(spec, p), 10**6, kind]], api="single", p=p)


def g_cycles(rng, tier, i):
    "every attempt of increment p ends on another component: exactly `cycl` attempts are due"
    spec = benign(rng, False)
    s = spec["settings"]
    for k in ("j_fixed", "j0"):
        s.pop(k, None)
    s["j_pre"] = False
    s["cycl"] = rng.choice([2, 3, 4, 5, 7])
    inc1 = s["incs"][0] if isinstance(s["incs"], list) else s["incs"]
    s["nsteps"], s["incs"] = 1, inc1
    spec["forces"] = [[l, f[:3]] for l, f in spec["forces"]]
    p = rng.randrange(1, inc1 + 1)
    comp = rng.randrange(0, G.ndof1(spec))
    return dict(spec=spec, faults=[[boundary(spec, p), 10**6, "kick1", [1000.0, comp]]], api="single", p=p)


def bound(pr):
    s = pr.spec["settings"]
    cycl, nfev = s.get("cycl", 4), s.get("nfev", 8)
    per = cycl * nfev + 2
    if s.get("stepcontrol"):
        span = s.get("maxfac", 10) / s.get("minfac", 1e-6)
        per = (cycl + 1) * (nfev + 1) * (2 + math.ceil(math.log(span) / math.log(s.get("reduce", 8))))
    return per


def run(case, rep):
    spec = case["spec"]
    n = spec["settings"].get("nsteps", 1)

    class P:
        pass

    fake = P()
    fake.spec = spec
    per = bound(fake)
    incs = spec["settings"]["incs"]
    total = sum(incs) if isinstance(incs, list) else incs * n
    pr = path.PathRun(case, rep, budget=per * (total + n) + 50)
    rep.stats["mode." + case["mode"]] += 1
    path.describe(pr, rep)
    if pr.budget_out:
        rep.bad("unbounded-work", f"{pr.w.nsolve} linear solves and no end ({total} increments, {per} solves each allowed)")
        return
    if not path.finished(pr, rep):
        return
    ends(pr, per, rep)
    if rep.violations:
        return
    if case["mode"] == "live":
        live(pr, case, rep)
    if case["mode"] in ("giveup", "cycles"):
        giveup(pr, case, rep, total)


def ends(pr, per, rep):
    ref = mech.Ref(pr.spec)
    s = pr.spec["settings"]
    steps, incs, lims = pr.steps(), pr.incs(), pr.xlimits()
    gaveup = 0
    if sum(map(len, steps)) != len(pr.R) - 1:
        rep.bad("foreign-entries", f"{len(pr.R) - 1} entries, but steps have {[len(x) for x in steps]}")
        return
    for k, idx in enumerate(steps):
        if len(idx) > incs[k]:
            rep.bad("too-many", f"step {k + 1}: {len(idx)} increments recorded, {incs[k]} requested")
            return
        over = []
        if lims[k] is not None:
            comp, lim = lims[k]
            over = [j for j, i in enumerate(idx) if abs(pr.vred(ref, i)[comp - 1]) > lim]
        if over and over[0] < len(idx) - 1:
            rep.bad("beyond-limit", f"step {k + 1} goes on after increment {over[0] + 1} exceeded the limit")
            return
        if over:
            rep.stats["probe.limit_stop"] += 1
        elif len(idx) < incs[k]:
            gaveup += 1
            rep.stats["probe.giveup"] += 1
        else:
            rep.stats["probe.full"] += 1
        rep.stats["checked.steps"] += 1
    reports = len([l for l in pr.text.splitlines() if re.search(r"\berror\b", l, re.I)])
    if gaveup > reports:
        rep.bad(
            "silent-end",
            f"{gaveup} of {len(steps)} steps ended before their last increment and limit, {reports} reported "
            f"(increments per step {[len(x) for x in steps]} of {incs})",
        )
        return
    if not s.get("stepcontrol"):
        most = (len(pr.R) - 1 + gaveup) * per
        if pr.w.nsolve > most:
            rep.bad("work", f"{pr.w.nsolve} solves for {len(pr.R) - 1} increments, at most {most} allowed")
            return
    # what is kept are converged increments
    ftol = 10.0 ** -s.get("ftol", 8)
    lds = mech.loads(ref, pr.R)
    hist = ref.history([np.asarray(r.U, float) for r in pr.R[1:]])
    for i in range(1, len(pr.R)):
        q = hist[i - 1]
        held, pat = lds[i]
        lpf = float(pr.R[i].lpf)
        res = np.linalg.norm((q["r"] - held - lpf * pat).ravel()[ref.dof1])
        tol = ftol * (1 + 1e-3) + 1e-12 * (ref.scale(q) + abs(lpf) * np.abs(pat).sum())
        if not res <= tol:
            rep.bad("failed-attempt-recorded", f"entry {i} is not a converged increment (residual {res:.3e})")
            return


def healthy(case, rep):
    "an undisturbed run that completes with no recycled increment"
    dry = path.PathRun(case, rep, faults=[], count=False)
    if dry.exc is not None:
        return None
    s = dry.spec["settings"]
    if [len(x) for x in dry.steps()] != dry.incs():
        return None
    if "recycling" in dry.text or dry.w.nsolve > (len(dry.R) - 1) * s.get("nfev", 8):
        return None
    return dry


def responsive(dry):
    """every component answers to the load of every step: the problem is well
    posed under control of any component a disturbance may have selected"""
    ref = mech.Ref(dry.spec)
    U = [np.asarray(r.U, float).ravel()[ref.dof1] for r in dry.R]
    for idx in dry.steps():
        d = np.abs(U[idx[0]] - U[idx[0] - 1])
        if d.min() < 1e-3 * d.max() or d.max() == 0:
            return False
    return True


def sure(spec):
    "trusses without limit points in reach: an undisturbed run completes, whatever is chosen for control"
    s = spec["settings"]
    if spec["family"] in ("bar", "planar"):
        return True
    incs = s["incs"] if isinstance(s["incs"], list) else [s["incs"]]
    return bool(s.get("stepcontrol")) and not s.get("j_fixed") and max(incs) <= 8


def undisturbed(case, rep):
    if not sure(case["spec"]):
        return
    dry = path.PathRun(case, rep, faults=[], count=False)
    got = [len(x) for x in dry.steps()] if dry.exc is None else repr(dry.exc)
    if got != dry.incs():
        rep.bad("no-progress", f"nothing disturbed the run of a well-posed truss, it ends after {got} of {dry.incs()} increments")
    else:
        rep.stats["probe.undisturbed_ok"] += 1


def live(pr, case, rep):
    undisturbed(case, rep)
    if rep.violations:
        return
    dry = healthy(case, rep)
    if dry is None or not responsive(dry):
        rep.stats["probe.live_skipped"] += 1
        return
    if [len(x) for x in pr.steps()] != pr.incs():
        rep.bad(
            "no-progress",
            f"the run ends after {[len(x) for x in pr.steps()]} of {pr.incs()} increments although the "
            f"disturbance was over and steps are adaptive",
        )
        return
    rep.stats["probe.live_ok"] += 1


def giveup(pr, case, rep, total):
    dry = healthy(case, rep)
    if dry is None:
        rep.stats["probe.giveup_skipped"] += 1
        return
    s = pr.spec["settings"]
    kind = case["faults"][0][2] if case["faults"] else None
    p = case["p"]
    if kind == "stall":
        small = min(s["du"], s["dlpf"]) * (s.get("minfac", 1e-6) if s.get("stepcontrol") else 1)
        if small < 4 * 10.0 ** -s.get("ftol", 8):
            return
    keep = p - 1
    if len(pr.R) - 1 != keep:
        rep.bad("kept", f"solver failure from increment {p} on: {len(pr.R) - 1} increments recorded instead of {keep}")
        return
    d = model.diff([model.snap(r) for r in dry.R[1 : p]], [model.snap(r) for r in pr.R[1:]])
    if d:
        rep.bad("kept-changed", f"solver failure from increment {p} on: {d}")
        return
    ends_ = list(getattr(pr.m.Results, "step_lpf_end", []))
    want = [float(pr.R[-1].lpf) if keep else 0.0] + [0.0] * (s.get("nsteps", 1) - 1)
    if [float(x) for x in ends_] != want:
        rep.bad("kept-ends", f"reached load factors {ends_} instead of {want}")
        return
    start = case["faults"][0][0]
    work = pr.w.nsolve - start
    nfev, cycl = s.get("nfev", 8), s.get("cycl", 4)
    if case["mode"] == "cycles":
        if not cycl * nfev - cycl <= work <= cycl * nfev:
            rep.bad("attempts", f"gave up after {work} solves, {cycl} attempts of {nfev} iterations are due")
    elif not s.get("stepcontrol"):
        # (each step that follows fails in the same way)
        attempts = s["nsteps"] + pr.text.count("recycling increment")
        if work > attempts * nfev:
            rep.bad("attempts", f"{work} solves in {attempts} failing attempts of {nfev} iterations")
        elif attempts > s["nsteps"] * cycl:
            rep.bad("attempts", f"{attempts} failing attempts in {s['nsteps']} steps, {cycl} are allowed in each")
    else:
        rep.stats["probe.giveup_adaptive"] += 1
        k = math.ceil(math.log(1 / s["minfac"]) / math.log(s["reduce"]) - 1e-9)
        if work < s.get("nsteps", 1) * k * (nfev - 1):
            rep.bad("early-giveup", f"gave up after {work} solves in {s['nsteps']} steps; {k} reductions are possible in each")


def shrink(case):
    from ..runner import shrink_faults, shrink_path, shrink_spec

    if case["mode"] in ("random", "singular"):
        yield from shrink_path(case)
    elif case["mode"] == "live":
        for f in shrink_faults(case["faults"]):
            yield dict(case, faults=f)
        for s in shrink_spec(case["spec"]):
            if s["settings"].get("stepcontrol"):
                yield dict(case, spec=dict(s, settings=dict(s["settings"], cycl=6)))
