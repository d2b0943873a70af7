"""C01: every recorded increment is in static equilibrium."""
import numpy as np

from .. import mech
from . import path

ID = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 2400, 60000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS + [
    "reference mechanics in dst/mech.py; residuals are compared with the force tolerance plus rounding "
    "(1e-12 of the forces involved)"
]
RULE = (
    "generated truss, step plan, settings and solver fault plan from (VERIF_SEED, C01, i); non-trivial: at "
    "least one solver fault fired; distinct by event log and results"
)
PROBES = ("probe.plastic_model", "probe.survived_faults", "probe.mixed_step_ends")


def gen(rng, i, tier):
    big = tier == "thorough" and i % 10 == 0
    return path.gen_path(rng, i, incs=60 if big else None)


def run(case, rep):
    pr = path.PathRun(case, rep)
    path.describe(pr, rep)
    check(pr, rep)


def check(pr, rep):
    ref = mech.Ref(pr.spec)
    if not path.finished(pr, rep):
        return
    R = pr.R
    if len(R) < 2:
        return
    U = [np.asarray(r.U, dtype=float) for r in R]
    hist = mech_history(ref, U)
    lds = mech.loads(ref, R)
    ftol = 10.0 ** -pr.spec["settings"].get("ftol", 8)
    for i in range(1, len(R)):
        u = U[i].ravel()
        if ref.dof0.size and np.any(u[ref.dof0] != 0):
            rep.bad("support-moves", f"increment {i}: supported displacement {np.abs(u[ref.dof0]).max():.3g}")
            return
        if not (np.all(np.isfinite(u)) and np.isfinite(float(R[i].lpf))):
            rep.bad("not-finite", f"increment {i} holds non-finite numbers")
            return
        q = hist[i - 1]
        held, pat = lds[i]
        g = (q["r"] - held - float(R[i].lpf) * pat).ravel()[ref.dof1]
        res = float(np.linalg.norm(g))
        tol = ftol * (1 + 1e-3) + 1e-12 * (ref.scale(q) + abs(float(R[i].lpf)) * np.abs(pat).sum())
        rep.stats["checked.increments"] += 1
        if not res <= tol:
            rep.bad("residual", f"increment {i} (step {R[i].step}): residual {res:.3e}, tolerance {ftol:.0e}")
            return


def mech_history(ref, U):
    return ref.history(U[1:])
