"""Common part of the properties about path-following runs (C01-C06)."""
import sys

import numpy as np

from .. import gen, mech, model
from .. import world as W

COMPONENTS = {
    "real": [
        "trusspy.Model (build, run, equilibrium, stiffness)",
        "trusspy.solvers (pathfollow, dxmax_control, newton)",
        "trusspy handlers, core objects, elements, materials",
        "numpy, scipy sparse solve (result passed on or disturbed)",
    ],
    "stub": ["standard output (recording stream)"],
}
ASSUMPTIONS = [
    "the linear solver is the only source of failed attempts; its faults are stalls, scaled, negated, "
    "perturbed and non-finite solutions",
    "Python, numpy and scipy are trusted",
]
STATES = "distinct (family, material mix, steps, adaptive, outcome pattern per step, fault kinds fired)"


def gen_path(rng, i, **kw):
    horizon = kw.pop("horizon", 50)
    spec = gen.scenario(rng, **kw)
    fl = gen.faults(rng, gen.horizon(rng, spec, horizon), spec) if rng.random() < 0.85 else []
    api = rng.choice(["single", "list", "raw"])
    return dict(spec=spec, faults=fl, api=api)


class PathRun:
    def __init__(self, case, rep, spec=None, faults=None, budget=20000, crash=None, count=True, marks=False):
        self.spec = spec or case["spec"]
        self.faults = case.get("faults", []) if faults is None else faults
        self.w = W.World(self.faults, budget=budget, crash=crash)
        self.out = W.Out(self.w)
        if marks:  # note in the text where the solves happened
            self.w.on_solve_hook = lambda k: self.out.parts.append("\0")
        old, sys.stdout = sys.stdout, self.out
        try:
            self.m = model.make(self.spec, api=case.get("api", "single"))
            self.run = model.Run(self.m, self.w)
        finally:
            sys.stdout = old
        self.exc = self.run.exc
        self.R = self.run.R
        self.text = self.out.text()
        if rep is not None and count:
            rep.world(self.w)
            rep.part(self.run.status, model.digest([model.snap(r) for r in self.R]))
            rep.stats["increments"] += max(0, len(self.R) - 1)
            rep.stats["status." + self.run.status] += 1

    @property
    def budget_out(self):
        return isinstance(self.exc, W.SimBudget)

    def steps(self):
        "recorded increments per step, as lists of indices"
        by = mech.groups(self.R)
        return [by.get(s + 1, []) for s in range(self.spec["settings"].get("nsteps", 1))]

    def incs(self):
        s = self.spec["settings"]
        n = s.get("nsteps", 1)
        v = s.get("incs", 50)
        return list(v) if isinstance(v, list) else [v] * n

    def xlimits(self):
        s = self.spec["settings"]
        n = s.get("nsteps", 1)
        v = s.get("xlimit")
        if v is None:
            return [None] * n
        if isinstance(v[0], list):
            return [None if x[1] is None else x for x in v]
        return [None if v[1] is None else v] * n

    def vred(self, ref, i):
        "active displacements and load factor of entry i"
        r = self.R[i]
        return np.append(np.asarray(r.U, float).ravel()[ref.dof1], float(r.lpf))


def describe(pr, rep):
    "state key and reach probes of a run"
    spec = pr.spec
    s = spec["settings"]
    steps = pr.steps()
    incs = pr.incs()
    mats = {e[2] for e in spec["elements"]}
    pattern = "".join(
        "F" if len(x) == n else ("0" if not x else "p") for x, n in zip(steps, incs)
    )
    kinds = sorted(k for k in pr.w.stats if k.startswith("fault"))
    rep.key(spec["family"], sorted(mats), len(steps), bool(s.get("stepcontrol")), pattern, *kinds)
    if any(len(x) == 0 for x in steps):
        rep.stats["probe.step_without_increment"] += 1
    if "F" in pattern and ("p" in pattern or "0" in pattern):
        rep.stats["probe.mixed_step_ends"] += 1
    if kinds and pattern.strip("F") == "":
        rep.stats["probe.survived_faults"] += 1
    if 2 in mats and len(pr.R) > 1:
        rep.stats["probe.plastic_model"] += 1
    return pattern


def sane(pr):
    "do the entries have the shapes a result has (else other checks cannot read them)"
    n = len(pr.spec["nodes"])
    for r in pr.R:
        if np.shape(r.U) != (n, 3):
            return False
    return True


def finished(pr, rep):
    """did the run come to an end with results (else there is nothing to judge, or
    it ended with an error where none is due)"""
    if pr.exc is None:
        if not sane(pr):
            rep.bad("shape", "a result entry has no full displacement array")
            return False
        return True
    if pr.budget_out:
        return False  # C06 judges the amount of work
    if pr.w.stats["real_solver_error"] and not getattr(pr.exc, "given_by_library", False):
        return False  # the real solver refused a singular matrix, loudly
    rep.bad("unexpected-error", f"run ended with {type(pr.exc).__name__}: {pr.exc}")
    return False
