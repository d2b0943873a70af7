"""C02: discarded attempts leave no trace in the material history."""
import numpy as np

from .. import mech
from . import path

ID = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 2200, 60000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS + ["reference integration of the isotropic-hardening law in dst/mech.py"]
RULE = (
    "generated truss with elastic-plastic (or mixed) elements, loading/unloading/reversed step plan, settings "
    "and solver fault plan from (VERIF_SEED, C02, i); non-trivial: at least one solver fault fired"
)
PROBES = ("probe.yield", "probe.reverse_yield", "probe.unload", "probe.mixed_yield", "probe.fault_after_yield")


def gen(rng, i, tier):
    fam = rng.choice(["bar", "bar", "twobar", "tripod", "planar", None])
    case = path.gen_path(
        rng, i, plastic=rng.choice(["all", "mixed", "mixed", "none"] if i % 10 == 0 else ["all", "mixed"]),
        family=fam, incs=60 if tier == "thorough" and i % 10 == 0 else None, horizon=70,
    )
    s = case["spec"]["settings"]
    if rng.random() < 0.6:  # far into the plastic range
        s["du"] = max(s["du"], 0.1 * min(1, case["spec"]["h"]))
        s["dlpf"] = max(s["dlpf"], 0.1)
    return case


def run(case, rep):
    pr = path.PathRun(case, rep)
    path.describe(pr, rep)
    if not path.finished(pr, rep):
        return
    ref = mech.Ref(pr.spec)
    R = pr.R
    if len(R) < 2:
        return
    has = bool(ref.plastic.any())
    hist = ref.history([np.asarray(r.U, float) for r in R[1:]])
    yielded = np.zeros(ref.ne)
    scale = ref.E * (1 + 0 * ref.E)
    for i in range(1, len(R)):
        q = hist[i - 1]
        sv = R[i].state_v
        if not has:
            if sv is not None and np.any(np.asarray(sv) != 0):
                rep.bad("elastic-history", f"increment {i}: elastic model with inelastic history")
                return
        else:
            sv = np.asarray(sv, float)
            if sv.shape != (ref.ne, 2):
                rep.bad("state-shape", f"increment {i}: material history has shape {sv.shape}")
                return
            if np.any(sv[~ref.plastic] != 0):
                rep.bad("elastic-history", f"increment {i}: an elastic element has inelastic history")
                return
            p = ref.plastic
            dsy = np.abs(sv[:, 0] - q["state"][:, 0])[p]
            dep = np.abs(sv[:, 1] - q["state"][:, 1])[p]
            tol = 1e-9
            if not np.all(dsy <= tol * scale[p] * (1 + np.abs(q["lam"][p]))):
                rep.bad("yield-stress", f"increment {i} (step {R[i].step}): yield stress off by {dsy.max():.3e}")
                return
            if not np.all(dep <= tol * (1 + np.abs(q["lam"][p]))):
                rep.bad("plastic-strain", f"increment {i} (step {R[i].step}): plastic strain off by {dep.max():.3e}")
                return
            d = q["state"][:, 1] - q["state0"][:, 1]
            if np.any(d != 0):
                rep.stats["probe.yield"] += 1
                if np.any(d * yielded < 0):
                    rep.stats["probe.reverse_yield"] += 1
                if (~p).any():
                    rep.stats["probe.mixed_yield"] += 1
            elif np.any(yielded != 0):
                rep.stats["probe.unload"] += 1
            yielded = np.where(d != 0, np.sign(d), yielded)
        ds = np.abs(np.asarray(R[i].element_stress, float).reshape(-1) - q["stress"])
        if not np.all(ds <= 1e-9 * scale * (1 + np.abs(q["lam"]))):
            rep.bad("stress", f"increment {i} (step {R[i].step}): stress off by {ds.max():.3e}")
            return
        rep.stats["checked.increments"] += 1
    if np.any(yielded != 0) and any(k.startswith("fault") for k in pr.w.stats):
        rep.stats["probe.fault_after_yield"] += 1
