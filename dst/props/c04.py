"""C04: the result history is an ordered list of self-consistent snapshots."""
import sys

import numpy as np

from .. import mech, model
from .. import world as W
from . import path

ID = "C04"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 40000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS + [
    "the recorded tangent belongs to the last Newton iterate, i.e. to the recorded displacements within xtol; "
    "it is compared where xtol <= 1e-6 and no element is next to yielding"
]
RULE = (
    "generated truss, step plan, settings and solver fault plan, then a sequence of later operations (plots, "
    "direct calls, rebuild, second run, crash in the second run) from (VERIF_SEED, C04, i); non-trivial: a "
    "fault fired"
)
PROBES = ("probe.prefix", "probe.tangent", "later.plot", "later.rerun", "later.crash", "later.calls")
LATER = ["calls", "plot", "rerun", "crash", "settings", "none"]


def gen(rng, i, tier):
    case = path.gen_path(rng, i, incs=40 if tier == "thorough" and i % 10 == 0 else None)
    case["later"] = [rng.choice(LATER) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.8:
        case["later"] = [x for x in case["later"] if x != "plot"]
    if rng.random() < 0.4:
        case["cut"] = [rng.random(), rng.random()]
    return case


def shrink(case):
    from ..runner import shrink_list, shrink_path

    if case.get("later"):
        for l in shrink_list(case["later"]):
            yield dict(case, later=l)
    yield from shrink_path(case)


def run(case, rep):
    pr = path.PathRun(case, rep)
    path.describe(pr, rep)
    if not path.finished(pr, rep):
        return
    ref = mech.Ref(pr.spec)
    consistent(pr, ref, rep)
    if not rep.violations:
        accessors(pr, ref, rep)
    if not rep.violations and case.get("cut"):
        prefix(pr, case, rep)
    if not rep.violations:
        later(pr, case, rep)


def off(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    d = np.abs(a - b).max() if a.size else 0.0
    return None if d <= tol else f"off by {d:.3e}"


def consistent(pr, ref, rep):
    R = pr.R
    s = pr.spec["settings"]
    for i, r in enumerate(R):
        gone = [k for k in ("lpf", "step", "U", "U0", "r", "stretch", "element_force", "element_stress", "K", "ExtForces")
                if getattr(r, k, None) is None]
        if gone:
            rep.bad("incomplete", f"entry {i} is without {gone}")
            return
    r0 = R[0]
    if np.any(np.asarray(r0.U) != 0) or float(r0.lpf) != 0 or np.any(np.asarray(r0.r) != 0):
        rep.bad("undeformed", "the first entry is not the undeformed state")
        return
    # exactly one entry per accepted increment (the log says how many there were)
    lds = mech.loads(ref, R)
    hist = ref.history([np.asarray(r.U, float) for r in R[1:]])
    seq = [int(r.step) for r in R[1:]]
    if any(b < a for a, b in zip(seq, seq[1:])):
        rep.bad("order", f"step numbers of the entries: {seq}")
        return
    xtol = s.get("xtol", 8)
    for i in range(1, len(R)):
        r, q = R[i], hist[i - 1]
        held, pat = lds[i]
        sc = ref.scale(q)

        def chk(kind, a, b, tol):
            msg = off(a, b, tol)
            if msg:
                rep.bad(kind, f"increment {i} (step {r.step}): {kind} {msg}")
            return msg

        if chk("U0", r.U0, R[i - 1].U, 0.0):
            return
        if chk("stretch", np.reshape(r.stretch, -1), q["lam"], 1e-10 * (1 + q["lam"].max())):
            return
        E = ref.E.max()
        if chk("stress", np.reshape(r.element_stress, -1), q["stress"], 1e-9 * E * (1 + q["lam"].max())):
            return
        if chk("force", np.reshape(r.element_force, -1), q["N"], 1e-9 * E * ref.A.max() * (1 + q["lam"].max())):
            return
        if chk("internal-force", r.r, q["r"], 1e-9 * E * ref.A.max() * ref.ne * (1 + q["lam"].max())):
            return
        if chk("applied-loads", r.ExtForces.forces, pat, 0.0):
            return
        if chk("held-loads", r.ExtForces.forces_const, held, 1e-12 * (1 + np.abs(held).sum())):
            return
        if i > 1 and np.array_equal(np.asarray(r.U), np.asarray(R[i - 1].U)) and r.lpf == R[i - 1].lpf:
            # (an increment smaller than the force tolerance may well be empty)
            small = min(s["du"], s["dlpf"]) * (s.get("minfac", 1e-6) if s.get("stepcontrol") else 1)
            if r.step == R[i - 1].step and small > 2 * 10.0 ** -s.get("ftol", 8):
                rep.bad("duplicate", f"entries {i - 1} and {i} are the same increment")
                return
        # reduced copies of the same numbers
        for name, want in (("Ured", np.asarray(r.U).ravel()[ref.dof1]), ("Vred", pr.vred(ref, i))):
            have = getattr(r, name, None)
            if have is not None and chk(name, have, want, 0.0):
                return
        have = getattr(r, "rred", None)
        if have is not None and chk("rred", have, np.asarray(r.r).ravel()[ref.dof1], 0.0):
            return
        have = getattr(r, "g", None)
        want = held + float(r.lpf) * pat - np.asarray(r.r)
        if have is not None and chk("balance", np.ravel(have), want.ravel(), 1e-12 * (1 + sc + np.abs(held).sum() + abs(float(r.lpf)) * np.abs(pat).sum())):
            return
        have = getattr(r, "element_stress0", None)
        if have is not None and chk("initial-stress", have, R[i - 1].element_stress, 0.0):
            return
        if ref.plastic.any():
            p = ref.plastic
            if chk("state", np.asarray(r.state_v, float)[p], q["state"][p], 1e-9 * (1 + E)):
                return
        if xtol >= 6 and q["l"].min() > 0.05 * min(1.0, ref.L.min()) and np.all(q["gap"] > 1e-4 * ref.E):
            U = np.asarray(r.U, float)
            K = ref.tangent(U, q["state0"])
            thin = (max(1.0, ref.L.max()) / q["l"].min()) ** 2
            ks = np.abs(ref.E * ref.A / ref.L * thin * (1 + q["lam"].max() ** 2)).sum()
            if chk("tangent", r.K, K, ks * (1e-9 + 100 * 10.0**-xtol / min(1.0, ref.L.min()))):
                return
            rep.stats["probe.tangent"] += 1
        rep.stats["checked.increments"] += 1


def accessors(pr, ref, rep):
    "the methods that read an entry give what is in it"
    for i in range(len(pr.R)):
        r = pr.m.Results.get_result(i)
        U, f = np.asarray(pr.R[i].U), np.asarray(pr.R[i].r)
        for name, have, want in (
            ("get_U()", r.get_U(), U),
            ("get_U(flat)", r.get_U(flat=True), U.ravel()),
            ("get_U(red)", r.get_U(red=True), U.ravel()[ref.dof1]),
            ("get_r()", r.get_r(), f),
            ("get_r(flat)", r.get_r(flat=True), f.ravel()),
            ("get_r(red)", r.get_r(red=True), f.ravel()[ref.dof1]),
        ):
            msg = off(have, want, 0.0)
            if msg:
                rep.bad("accessor", f"entry {i}: {name} {msg}")
                return


KEEP = model.PUBLIC


def prefix(pr, case, rep):
    "a run that is cut short gives the same first entries, bit for bit"
    steps, incs = pr.steps(), pr.incs()
    full = [k for k in range(len(steps)) if steps[k]]
    if not full:
        return
    k = full[int(case["cut"][0] * len(full))]
    c = 1 + int(case["cut"][1] * len(steps[k]))
    new = incs[:k] + [c]
    s = dict(pr.spec["settings"], nsteps=k + 1, incs=new)
    if s.get("xlimit") and isinstance(s["xlimit"][0], list):
        s["xlimit"] = s["xlimit"][: k + 1]
    p2 = path.PathRun(case, rep, spec=dict(pr.spec, settings=s))
    want = [model.snap(r, KEEP) for r in pr.R[: 1 + steps[k][0] - 1 + c]]
    have = [model.snap(r, KEEP) for r in p2.R]
    rep.stats["probe.prefix"] += 1
    d = model.diff(want, have)
    if d:
        rep.bad("prefix", f"a run that ends after increment {c} of step {k + 1} has other entries: {d}")


def later(pr, case, rep):
    m, res = pr.m, pr.m.Results
    lst = res.R
    objs = list(lst)
    before = [model.snap(r, model.FIELDS) for r in objs]
    for n, op in enumerate(case["later"]):
        rep.stats["later." + op] += 1
        w = W.World([], budget=20000)
        old, sys.stdout = sys.stdout, W.Out(w)
        try:
            with W.active(w):
                if op == "calls":
                    u = np.linspace(0.1, 0.2, len(m.nproDOF1)) * pr.spec["h"]
                    m.equilibrium(u, 0 * u)
                    m.stiffness(u)
                    m.equilibrium(u, 0 * u, statev_write=True)
                elif op == "plot":
                    import matplotlib.pyplot as plt

                    m.plot_model(view="xz", contour="force", inc=len(m.Results.R) - 1)
                    m.plot_history(nodes=[pr.spec["nodes"][0][0]] * 2)
                    m.plot_path(nodepath=[pr.spec["nodes"][0][0]])
                    plt.close("all")
                elif op == "settings":
                    m.Settings.incs = 2
                    m.Settings.du = pr.spec["settings"]["du"] * 0.7
                elif op in ("rerun", "crash"):
                    if op == "crash":
                        w.crash = ["solve", 1 + n * 3, "KeyboardInterrupt"]
                    m.build()
                    m.run()
        except (KeyboardInterrupt, W.SimBudget):
            pass
        finally:
            sys.stdout = old
        rep.world(w)
        if len(lst) != len(objs) or any(a is not c for a, c in zip(lst, objs)):
            rep.bad("list-changed", f"the list of an earlier result changed after {op}")
            return
        d = model.diff(before, [model.snap(r, model.FIELDS) for r in objs])
        if d:
            rep.bad("entry-changed", f"after {op}: {d}")
            return
