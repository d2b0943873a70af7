"""C03: each load step continues exactly where the previous step ended."""
import numpy as np

from .. import gen as G
from .. import mech, model
from . import path

ID = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 2000, 50000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS
RULE = (
    "generated 2-5 step plans (scalar or per-step counts and limits, own load pattern per step) with solver "
    "faults, including steps that fail or stop at their limit, from (VERIF_SEED, C03, i); non-trivial: a "
    "solver fault fired"
)
PROBES = (
    "probe.step_without_increment", "probe.limit_then_next", "probe.giveup_then_next", "probe.per_step_incs",
    "probe.per_step_xlimit", "probe.prefix",
)


def gen(rng, i, tier):
    while True:
        spec = G.scenario(rng, incs=25 if tier == "thorough" and i % 10 == 0 else None)
        if spec["settings"].get("nsteps", 1) > 1:
            break
    s = spec["settings"]
    fl = G.faults(rng, G.horizon(rng, spec, 60), spec) if rng.random() < 0.6 else []
    if rng.random() < 0.5:  # make one step stop early at a limit
        n = s.get("nsteps", 1)
        lim = [[0, None] for _ in range(n)]
        for k in rng.sample(range(n), rng.randrange(1, n + 1)):
            if rng.random() < 0.5:
                lim[k] = [0, G.r4(s["dlpf"] * rng.choice([0, 0.01, 0.5, 0.5, 1.5, 1.5, 2.5]))]
            else:
                lim[k] = [rng.randrange(1, G.ndof1(spec) + 1), G.r4(s["du"] * rng.choice([0.01, 0.5, 1.5, 3.5]))]
        s["xlimit"] = lim
        if rng.random() < 0.5:
            s["incs"] = 8
    if rng.random() < 0.5:  # a fault long enough to end a step
        fl.append(G.fault(rng, rng.randrange(0, 50), rng.choice([20, 40, 60]), [("stall", 1), ("nan", 1)]))
        fl.sort(key=lambda f: f[0])
    return dict(spec=spec, faults=fl, api=rng.choice(["single", "list", "raw"]), prefix=rng.random() < 0.3)


def run(case, rep):
    pr = path.PathRun(case, rep)
    pattern = path.describe(pr, rep)
    if not path.finished(pr, rep):
        return
    ref = mech.Ref(pr.spec)
    s = pr.spec["settings"]
    n = s.get("nsteps", 1)
    R, steps, incs, lims = pr.R, pr.steps(), pr.incs(), pr.xlimits()
    dxtol = s.get("dxtol", 1.000001)
    ftol = 10.0 ** -s.get("ftol", 8)

    # step numbers: ascending, each step contiguous
    seq = [int(r.step) for r in R[1:]]
    if any(b < a for a, b in zip(seq, seq[1:])) or any(not 1 <= x <= n for x in seq):
        rep.bad("step-numbers", f"step numbers of the entries: {seq}")
        return
    # reached load factors
    end = list(getattr(pr.m.Results, "step_lpf_end", []))
    if len(end) != n:
        rep.bad("step-ends", f"{len(end)} reached load factors for {n} steps")
        return
    for k in range(n):
        want = float(R[steps[k][-1]].lpf) if steps[k] else 0.0
        if float(end[k]) != want:
            rep.bad("step-ends", f"step {k + 1} reached load factor {want:.6g}, reported {float(end[k]):.6g}")
            return
    lds = mech.loads(ref, R)
    hist = ref.history([np.asarray(r.U, float) for r in R[1:]])
    for i in range(1, len(R)):
        k = int(R[i].step) - 1
        held, pat = lds[i]
        q = hist[i - 1]
        first = steps[k][0] == i
        # displacement at the start of the increment
        if np.any(np.asarray(R[i].U0, float) != np.asarray(R[i - 1].U, float)):
            if first:
                rep.bad("start", f"increment {i} starts step {k + 1} away from the end of the previous step")
                return
        # the load factor restarts from zero: the first increment is one increment away from it
        if first:
            dl = abs(float(R[i].lpf))
            lim = s["dlpf"] * (s.get("maxfac", 10) if s.get("stepcontrol") else 1) * dxtol
            if not s.get("j_fixed") and dl > lim * (1 + 1e-9) + ftol:
                rep.bad("lpf-restart", f"step {k + 1} starts with load factor {dl:.6g}, largest increment {lim:.6g}")
                return
            du = np.abs(np.asarray(R[i].U, float) - np.asarray(R[i - 1].U, float)).max()
            limu = s["du"] * (s.get("maxfac", 10) if s.get("stepcontrol") else 1) * dxtol
            if not s.get("j_fixed") and du > limu * (1 + 1e-9) + ftol:
                rep.bad("jump", f"step {k + 1} starts with a jump of {du:.6g}, largest increment {limu:.6g}")
                return
        # loads
        ef = R[i].ExtForces
        fsc = 1e-12 * (1 + np.abs(held).sum())
        if np.abs(np.asarray(ef.forces_const, float) - held).max() > fsc:
            rep.bad("held-loads", f"increment {i} (step {k + 1}): loads of completed steps are not held")
            return
        if np.any(np.asarray(ef.forces, float) != pat):
            rep.bad("pattern", f"increment {i} (step {k + 1}): wrong load pattern")
            return
        g = (q["r"] - held - float(R[i].lpf) * pat).ravel()[ref.dof1]
        tol = ftol * (1 + 1e-3) + 1e-12 * (ref.scale(q) + abs(float(R[i].lpf)) * np.abs(pat).sum())
        if not np.linalg.norm(g) <= tol:
            rep.bad(
                "continuation",
                f"increment {i} (step {k + 1}) does not balance the loads held from completed steps: "
                f"residual {np.linalg.norm(g):.3e}",
            )
            return
        if ref.plastic.any():
            sv = np.asarray(R[i].state_v, float)
            d = np.abs(sv - q["state"])[ref.plastic]
            if not np.all(d <= 1e-9 * (1 + ref.E[ref.plastic][:, None])):
                rep.bad("material", f"increment {i} (step {k + 1}): material state does not continue")
                return
        rep.stats["checked.increments"] += 1
    # own count and own limit per step
    if isinstance(s["incs"], list):
        rep.stats["probe.per_step_incs"] += 1
    if s.get("xlimit") and isinstance(s["xlimit"][0], list):
        rep.stats["probe.per_step_xlimit"] += 1
    for k in range(n):
        if len(steps[k]) > incs[k]:
            rep.bad("count", f"step {k + 1} has {len(steps[k])} increments, {incs[k]} requested")
            return
        lim = lims[k]
        if lim is not None:
            x = [abs(pr.vred(ref, i)[lim[0] - 1]) for i in steps[k]]
            over = [j for j, v in enumerate(x) if v > lim[1]]
            if over and over[0] != len(x) - 1:
                rep.bad("limit", f"step {k + 1} goes on after its limit was exceeded")
                return
            if over and k + 1 < n and steps[k + 1]:
                rep.stats["probe.limit_then_next"] += 1
            over_here = bool(over)
        else:
            over_here = False
        if not over_here and len(steps[k]) < incs[k]:
            # ended early: must be reported (see C06); here: the next step still runs
            if k + 1 < n and steps[k + 1]:
                rep.stats["probe.giveup_then_next"] += 1
            if not pr.w.stats or not any(x.startswith("fault") for x in pr.w.stats):
                rep.stats["probe.early_without_fault"] += 1
    if case.get("prefix") and n > 1 and len(R) > 1:
        # a plan cut after step c gives the first c steps, bit for bit
        c = 1 + (len(R) * 7 + n) % (n - 1)
        spec2 = dict(pr.spec, settings=dict(s, nsteps=c))
        p2 = path.PathRun(case, rep, spec=spec2)
        want = [model.snap(r, ("U", "lpf", "r", "state_v", "step")) for r in R if int(r.step) <= c]
        have = [model.snap(r, ("U", "lpf", "r", "state_v", "step")) for r in p2.R]
        want[0].pop("ExtForces.forces", None), have[0].pop("ExtForces.forces", None)
        d = model.diff(want[1:], have[1:])
        rep.stats["probe.prefix"] += 1
        if d:
            rep.bad("prefix", f"the first {c} of {n} steps differ from a run of {c} steps: {d}")
