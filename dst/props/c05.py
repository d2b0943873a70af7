"""C05: increment size obeys its limits and the adaptive step rule."""
import numpy as np

from .. import gen as G
from .. import mech
from . import path

ID = "C05"
LEVEL = "exploration"
GEN_RUNS_CODE = True
QUICK, THOROUGH = 2000, 50000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS + [
    "the step factor of an increment is known from the recorded increment up to the overshoot factor and the "
    "force tolerance (the control equation is solved within ftol)"
]
RULE = (
    "generated truss, step-control settings and solver fault plan (two thirds adaptive; part of them with a "
    "locked component and stalls covering exactly k attempts of a chosen increment) from (VERIF_SEED, C05, i); "
    "non-trivial: a fault fired"
)
PROBES = (
    "probe.reduced", "probe.grown", "probe.at_maxfac", "probe.at_minfac", "probe.after_reduction",
    "probe.exact", "probe.fixed", "probe.not_adaptive",
)


def gen(rng, i, tier):
    kind = i % 4
    if kind == 3:
        return exact(rng)
    spec = G.scenario(rng, stepcontrol=kind != 2, incs=rng.choice([8, 12, 16, 30 if tier == "quick" else 80]),
                      fixed=None if rng.random() < 0.6 else True, max_steps=rng.choice([1, 1, 3]))
    s = spec["settings"]
    if s.get("stepcontrol"):
        if rng.random() < 0.5:
            s["increase"] = rng.choice([0.25, 0.5, 1.0, 2.0])
        if rng.random() < 0.5:
            s["maxfac"] = rng.choice([1, 1.2, 1.7, 2.5, 4])
        if rng.random() < 0.4:
            s["minfac"] = rng.choice([0.3, 0.1, 0.02])
        s["cycl"] = rng.choice([4, 4, 6, 8])
    if not isinstance(s["incs"], list):
        s.pop("xlimit", None)
    fl = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        fl.append(G.fault(rng, rng.randrange(0, G.horizon(rng, spec, 70)), rng.choice([1, 2, 3, s.get("nfev", 8), 10, 16]), size=spec["h"]))
    fl.sort(key=lambda f: f[0])
    return dict(spec=spec, faults=fl, api=rng.choice(["single", "list", "raw"]))


def exact(rng):
    "locked control component, no growth: k stalled attempts give exactly reduce**-k"
    spec = G.truss(rng, family=rng.choice(["bar", "tripod", "planar", "twobar"]), plastic=rng.choice(["none", "none", "all"]))
    n = G.ndof1(spec)
    red = rng.choice([2, 3.0, 5, 8, 10])
    s = dict(
        nsteps=1, incs=rng.choice([5, 7, 9]), du=G.r4(0.05 * spec["h"]), dlpf=0.02, stepcontrol=True,
        increase=0, reduce=red, j_fixed=True, j0=n + 1, minfac=rng.choice([1e-6, 0.05, 0.2, 1e-3]),
        maxfac=rng.choice([1, 3]), cycl=rng.choice([2, 3, 4, 6]), nfev=rng.choice([6, 8, 10]),
    )
    spec["settings"] = s
    spec["log"] = rng.choice([0, 0, 2])
    p = rng.randrange(1, s["incs"] + 1)  # the increment that meets the stalls
    start = 0
    if p > 1:
        pr = path.PathRun(dict(spec=spec, faults=[]), None, spec=dict(spec, settings=dict(s, incs=p - 1)))
        start = pr.w.nsolve
    k = 1
    while k < 3 and red**-k > s["minfac"] and rng.random() < 0.5:
        k += 1
    return dict(spec=spec, faults=[[start, k * s["nfev"], rng.choice(["stall", "nan"])]], api="single", exact=[p, k])


def run(case, rep):
    pr = path.PathRun(case, rep)
    path.describe(pr, rep)
    if not path.finished(pr, rep):
        return
    ref = mech.Ref(pr.spec)
    s = pr.spec["settings"]
    factors = check(pr, ref, s, rep)
    if factors is not None and case.get("exact") and not rep.violations:
        dry = path.PathRun(case, rep, faults=[], count=False)
        if not path.finished(dry, rep):
            return
        calm = check(dry, ref, s, rep)  # must not need reductions of its own
        if calm is not None and len(calm[0]) == s["incs"] and all(f[1] > 1 - 1e-6 for f in calm[0]):
            check_exact(case, factors, s, pr, rep)


def shrink(case):
    from ..runner import shrink_path

    if not case.get("exact"):
        yield from shrink_path(case)


def check(pr, ref, s, rep):
    n = len(ref.dof1)
    lim = np.append(np.full(n, float(s["du"])), float(s["dlpf"]))
    dxtol = s.get("dxtol", 1.000001)
    ftol = 10.0 ** -s.get("ftol", 8)
    sc = s.get("stepcontrol", False)
    fixed = s.get("j_fixed", False)
    lo_f, hi_f = (s.get("minfac", 1e-6), s.get("maxfac", 10)) if sc else (1.0, 1.0)
    inc, red = s.get("increase", 0.5), s.get("reduce", 8)
    eps = 1e-9
    all_steps = []
    for idx in pr.steps():
        prev = None
        F = (1.0, 1.0)
        out = []
        quiet = 0
        for i in idx:
            x = pr.vred(ref, i)
            if prev is None:
                prev = np.append(np.asarray(pr.R[i - 1].U, float).ravel()[ref.dof1], 0.0)
            D = np.abs(x - prev) / lim
            prev = x
            t = ftol / lim + eps
            where = f"increment {i} (step {pr.R[i].step})"
            if fixed:
                c = abs(s["j0"]) - 1
                r, tt = D[c], t[c]
                new = (r - tt, r + tt)
                rep.stats["probe.fixed"] += 1
            else:
                r, tt = D.max(), t.max()
                new = ((r - tt) / dxtol, r + tt)
            if not sc:
                rep.stats["probe.not_adaptive"] += 1
            # the limits
            if new[0] > hi_f * (1 + eps):
                what = "locked component" if fixed else "largest component"
                rep.bad("too-large", f"{where}: {what} moves {r:.8g} of its limit, allowed {hi_f:g} x {dxtol:g}")
                return None
            if new[1] < lo_f * (1 - eps):
                rep.bad("too-small", f"{where}: no component reaches its limit (largest {r:.8g}, at least {lo_f:g})")
                return None
            new = (max(new[0], lo_f * (1 - eps)), min(new[1], hi_f * (1 + eps)))
            # reported limits
            dv = getattr(pr.R[i], "dVmax", None)
            if dv is not None and np.shape(dv) == lim.shape:
                f = np.asarray(dv, float) / lim
                if np.abs(f - f[0]).max() > 1e-9 * f[0]:
                    rep.bad("not-common", f"{where}: limits are scaled by different factors {f.min():.6g}..{f.max():.6g}")
                    return None
                if not (lo_f * (1 - eps) <= f[0] <= hi_f * (1 + eps)):
                    rep.bad("factor-range", f"{where}: step factor {f[0]:.6g} outside {lo_f:g}..{hi_f:g}")
                    return None
                if not (new[0] - eps <= f[0] * (1 + eps) and f[0] * (1 - eps) <= new[1] + eps):
                    rep.bad("reported-limit", f"{where}: recorded limit factor {f[0]:.6g}, increment used {r:.6g}")
                    return None
                new = (f[0] * (1 - eps), f[0] * (1 + eps))
            # the adaptive rule
            if sc:
                # a disturbed attempt that converged, with its control equation met
                # within the force tolerance only, may count as overshoot: it is
                # repeated, after a growth of its own
                twice = bool(pr.w.faults) and ftol / (lim.min() * F[0]) > 0.1 * (dxtol - 1)
                glo, ghi = F[0], min(F[1] * (1 + inc) ** (2 if twice else 1), hi_f)
                ok = False
                k = 0
                while True:
                    a, b = max(glo / red**k, lo_f), max(ghi / red**k, lo_f)
                    if new[0] <= b * (1 + eps) and a * (1 - eps) <= new[1]:
                        ok = True
                        break
                    if b <= lo_f:
                        break
                    k += 1
                if not ok:
                    kind = "growth" if new[0] > ghi else "reduction"
                    rep.bad(
                        kind,
                        f"{where}: step factor {new[1]:.6g} after {F[1]:.6g} (increase {inc:g}, reduction {red:g})",
                    )
                    return None
                if quiet and new[0] > F[1] * (1 + 1e-6):
                    rep.bad("early-growth", f"{where}: step factor grows from {F[1]:.6g} to {new[0]:.6g} "
                            f"{4 - quiet} increments after a reduction")
                    return None
                if quiet:
                    rep.stats["probe.after_reduction"] += 1
                if new[1] < F[0] * (1 - 1e-6):
                    quiet = 3
                    rep.stats["probe.reduced"] += 1
                else:
                    quiet = max(0, quiet - 1)
                    if new[0] > F[1] * (1 + 1e-6):
                        rep.stats["probe.grown"] += 1
                if new[1] >= hi_f * (1 - 1e-6) and hi_f > 1:
                    rep.stats["probe.at_maxfac"] += 1
                if new[0] <= lo_f * (1 + 1e-6):
                    rep.stats["probe.at_minfac"] += 1
            F = new
            out.append(F)
            rep.stats["checked.increments"] += 1
        all_steps.append(out)
    return all_steps


def check_exact(case, factors, s, pr, rep):
    p, k = case["exact"]
    got = factors[0]
    full = len(got) == s["incs"]
    if len(got) < p:
        return  # gave up (or never got there): C06
    want = max(float(s["reduce"]) ** -k, s["minfac"])
    # did exactly the planned stalls fire
    if sum(v for q, v in pr.w.stats.items() if q.startswith("fault")) != k * s["nfev"]:
        return
    lo, hi = got[p - 1]
    rep.stats["probe.exact"] += 1
    if not (lo * (1 - 1e-6) <= want <= hi * (1 + 1e-6)):
        rep.bad("exact", f"increment {p} after {k} failed attempts: step factor {hi:.6g} instead of {want:.6g}")
        return
    for q in range(p, len(got)):
        lo, hi = got[q]
        if lo > want * (1 + 1e-6):
            rep.bad("exact-after", f"increment {q + 1}: step factor {hi:.6g} instead of {want:.6g}")
            return
    if full:
        rep.stats["probe.exact_full"] += 1
