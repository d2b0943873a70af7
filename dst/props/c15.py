"""C15: the printed protocol tells what the run did."""
import re

import numpy as np

from .. import mech
from . import path

ID = "C15"
LEVEL = "exploration"
QUICK, THOROUGH = 2000, 50000
COMPONENTS, STATES = path.COMPONENTS, path.STATES
ASSUMPTIONS = path.ASSUMPTIONS + [
    "the layout of the protocol (headings, table rows) is that of the current version; numbers are compared to "
    "the digits that are printed",
]
RULE = (
    "generated truss, step plan, settings, log level 0-3 and solver fault plan from (VERIF_SEED, C15, i); the "
    "printed text with a mark at every linear solve against the recorded history; non-trivial: a fault fired"
)
PROBES = (
    "probe.exit", "probe.giveup", "probe.recycled", "probe.log0", "probe.log1", "probe.log2", "probe.log3",
    "probe.steps", "probe.preliminary", "checked.rows", "checked.totals", "probe.failed_attempt",
)

NUM = r"\s*([-+]?(?:\d[\d.e+-]*|nan|inf))\s*"
ROW = re.compile(r"^\|\s*\|\s*(\d+)\s*\|\s*\|" + NUM + r"\|")
TOTAL = re.compile(
    r"^\|\s*(\d+)\s*\|\s*(-?\d+)\s*\|\s*(-?\d+)\s*\|" + NUM + r"\|\s*(\d+)\s*\|" + NUM + r"\|\s*(\d*)\s*\|"
    r"(?:" + NUM + r")?\s*\|\s*(\d*)\s*\|(?:" + NUM + r")?\s*\|"
)


def gen(rng, i, tier):
    case = path.gen_path(rng, i, incs=60 if tier == "thorough" and i % 10 == 0 else None)
    case["spec"]["log"] = rng.choice([0, 1, 1, 2, 2, 3])
    s = case["spec"]["settings"]
    if rng.random() < 0.3:
        s["incs"] = s["incs"] if isinstance(s["incs"], list) else max(s["incs"], 11)
    return case


def same(printed, value, digits=4):
    "is the printed number the value, to its digits?"
    a, b = float(printed), float(value)
    if not (np.isfinite(a) and np.isfinite(b)):
        return repr(a) == repr(b) or (np.isnan(a) and np.isnan(b))
    return abs(a - b) <= 0.51 * 10.0 ** (1 - digits) * max(abs(a), abs(b)) + 1e-300


def run(case, rep):
    pr = path.PathRun(case, rep, marks=True)
    path.describe(pr, rep)
    if not path.finished(pr, rep):
        return
    log = pr.spec["log"]
    rep.stats[f"probe.log{log}"] += 1
    text = pr.text
    if log == 0:
        ends0(pr, text.replace("\0", ""), rep)
        return
    check(pr, text, rep)


def expected_ends(pr, ref):
    "per step: (number of recorded increments, why it ended)"
    out = []
    steps, incs, lims = pr.steps(), pr.incs(), pr.xlimits()
    for k, idx in enumerate(steps):
        why = "full"
        if lims[k] is not None and idx and abs(pr.vred(ref, idx[-1])[lims[k][0] - 1]) > lims[k][1]:
            why = "exit"
        elif len(idx) < incs[k]:
            why = "error"
        out.append((len(idx), why))
    return out


def reasons(text):
    out = []
    for line in text.splitlines():
        if re.search(r"\berror\b", line, re.I):
            out.append("error")
        elif re.search(r"\bexit\b", line, re.I):
            out.append("exit")
    return out


def ends0(pr, text, rep):
    want = [w for _, w in expected_ends(pr, mech.Ref(pr.spec)) if w != "full"]
    got = reasons(text)
    for w in want:
        rep.stats["probe.giveup" if w == "error" else "probe.exit"] += 1
    if got != want:
        rep.bad("ends", f"the steps ended by {want}, the protocol says {got} (log level 0)")


def check(pr, text, rep):
    ref = mech.Ref(pr.spec)
    log = pr.spec["log"]
    ends = expected_ends(pr, ref)
    steps = pr.steps()
    parts = re.split(r"(?m)^## Step\s+(\d+)\s*$", text)
    nums = [int(x) for x in parts[1::2]]
    if nums != list(range(1, len(ends) + 1)):
        rep.bad("steps", f"the protocol has the steps {nums}, {len(ends)} were run")
        return
    if "### Increment" in parts[0] or "\0" in parts[0]:
        rep.bad("steps", "increments before the first step")
        return
    if len(ends) > 1:
        rep.stats["probe.steps"] += 1
    for k, body in enumerate(parts[2::2]):
        n, why = ends[k]
        fin = re.findall(r"(?m)^End of Step\s+(\d+)\s*$", body)
        if [int(x) for x in fin] != [k + 1]:
            rep.bad("steps", f"step {k + 1}: ends of step printed: {fin}")
            return
        got = reasons(body)
        want = [] if why == "full" else [why]
        if why != "full":
            rep.stats["probe.giveup" if why == "error" else "probe.exit"] += 1
        if got != want:
            rep.bad("ends", f"step {k + 1} ended by {want or 'its last increment'}, the protocol says {got}")
            return
        secs = re.split(r"(?m)^### Increment\s+(\d+)\s*$", body)
        heads = [int(x) for x in secs[1::2]]
        if heads != list(range(1, n + 1 + (why == "error"))):
            rep.bad("increments", f"step {k + 1}: increments {heads} in the protocol, {n} recorded ({why})")
            return
        if "\0" in secs[0]:
            rep.bad("increments", f"step {k + 1}: solves outside of the increments")
            return
        for j, sec in enumerate(secs[2::2]):
            entry = steps[k][j] if j < n else None
            where = f"step {k + 1}, increment {j + 1}"
            tail = sec
            if j == len(heads) - 1:
                sec, _, tail = sec.partition("### Create result")
            if not increment(pr, ref, sec, entry, where, log, rep):
                return
        if log > 1 and n + (why == "error"):
            rows = re.findall(r"write result\s+(\d+)/\s*(\d+)\s+\(LPF:" + NUM + r"\)", body)
            if [(int(a), int(b)) for a, b, _ in rows] != [(i + 1, n) for i in range(n)]:
                rep.bad("written", f"step {k + 1}: results written {rows}, {n} recorded")
                return
            for (_, _, v), i in zip(rows, steps[k]):
                if not same(v, pr.R[i].lpf):
                    rep.bad("written", f"step {k + 1}: load factor {v} written, {float(pr.R[i].lpf):.6g} recorded")
                    return


def increment(pr, ref, sec, entry, where, log, rep):
    s = pr.spec["settings"]
    final = re.findall(r"(?m)^\* final LPF:" + NUM + r"$", sec.replace("\0", ""))
    if len(final) != (entry is not None):
        rep.bad("final", f"{where}: load factors {final} printed, the increment is{'' if entry else ' not'} recorded")
        return False
    if final and not same(final[0], pr.R[entry].lpf):
        rep.bad("final", f"{where}: load factor {final[0]} printed, {float(pr.R[entry].lpf):.6g} recorded")
        return False
    pre_due = s.get("j_pre", True) and not s.get("j_fixed")
    pre_seen = False
    # events in order
    ev = []
    for line in sec.split("\n"):
        # marks come before the row of the iteration
        for _ in range(line.count("\0")):
            ev.append(("solve",))
        line = line.replace("\0", "")
        m = ROW.match(line)
        if m:
            ev.append(("row", int(m.group(1)), m.group(2)))
            continue
        m = TOTAL.match(line)
        if m:
            ev.append(("total",) + m.groups())
        elif "recycling" in line:
            ev.append(("recycle",))
    if pre_due:
        if not ev or ev[0] != ("solve",):
            rep.bad("rows", f"{where}: no preliminary solution")
            return False
        ev.pop(0)
        pre_seen = True
        rep.stats["probe.preliminary"] += 1
        if log > 1:
            if not ev or ev[0][0] != "total":
                rep.bad("rows", f"{where}: the preliminary solution is not stated")
                return False
            ev.pop(0)
    attempts, cur = [], None
    done = False
    i = 0
    while i < len(ev):
        e = ev[i]
        if e[0] == "solve":
            if done:
                rep.bad("rows", f"{where}: solves without a line about a new attempt")
                return False
            nxt = ev[i + 1] if i + 1 < len(ev) else None
            if nxt is None or nxt[0] != "row":
                rep.bad("rows", f"{where}: an iteration is missing in the protocol")
                return False
            if cur is None:
                cur = []
            cur.append(nxt)
            rep.stats["checked.rows"] += 1
            i += 2
            continue
        if e[0] == "row":
            rep.bad("rows", f"{where}: iteration {e[1]} is stated without a solve")
            return False
        if e[0] == "total":
            if cur is None or done:
                rep.bad("rows", f"{where}: the sum of an attempt without iterations")
                return False
            attempts.append((cur, e))
            done = True
        if e[0] == "recycle":
            if log == 1:
                attempts.append((cur, None))
            elif not done:
                rep.bad("rows", f"{where}: an attempt without its sum")
                return False
            cur, done = None, False
            rep.stats["probe.recycled"] += 1
            if i + 1 == len(ev):
                rep.bad("rows", f"{where}: a repetition is stated but not made")
                return False
        i += 1
    if log == 1 and cur is not None:
        attempts.append((cur, None))
    elif log > 1 and cur is not None and not done:
        rep.bad("rows", f"{where}: an attempt without its sum")
        return False
    if not attempts:
        if not pre_seen or entry is None:
            rep.bad("rows", f"{where}: no attempt in the protocol")
            return False
        return True
    for a, (rows, total) in enumerate(attempts):
        if rows is None or [r[1] for r in rows] != list(range(1, len(rows) + 1)):
            rep.bad("rows", f"{where}: attempt {a + 1} has the iterations {rows and [r[1] for r in rows]}")
            return False
        if total is None:
            continue
        rep.stats["checked.totals"] += 1
        used = len(rows) + (1 if a == 0 and pre_seen else 0)
        # (with adaptive steps the count of attempts may begin again)
        if not s.get("stepcontrol") and int(total[1]) != a + 1:
            rep.bad("sum", f"{where}: attempt {a + 1} is stated as number {total[1]}")
            return False
        if int(total[2]) != used:
            rep.bad("sum", f"{where}: attempt {a + 1} used {used} iterations, {total[2]} stated")
            return False
        if total[4].strip() != rows[-1][2].strip():
            rep.bad("sum", f"{where}: attempt {a + 1} ended with the norm {rows[-1][2]}, {total[4]} stated")
            return False
    if entry is None:
        rep.stats["probe.failed_attempt"] += 1
        return True
    rows, total = attempts[-1]
    ftol = 10.0 ** -s.get("ftol", 8)
    if not float(rows[-1][2]) <= ftol * 1.001:
        rep.bad("norm", f"{where}: recorded, but the last norm stated is {rows[-1][2]}")
        return False
    if total is not None:
        return biggest(pr, ref, entry, total, where, rep)
    return True


def biggest(pr, ref, entry, total, where, rep):
    "the stated biggest components of the accepted attempt are those of the recorded increment"
    s = pr.spec["settings"]
    x = pr.vred(ref, entry)
    x0 = pr.vred(ref, entry - 1)
    if int(pr.R[entry].step) != int(pr.R[entry - 1].step) or entry == 1:
        x0[-1] = 0.0
    d = x - x0
    lim = np.full(len(d), float(s["du"]))
    lim[-1] = s["dlpf"]
    rel = d / lim
    stated = []
    for a in (5, 7, 9):
        if total[a] and total[a + 1] and int(total[a]) > 0:
            stated.append((int(total[a]), float(total[a + 1])))
    comps = [c for c, _ in stated]
    if len(set(comps)) != len(comps) or max(comps) > len(d) or len(stated) != min(3, len(d)):
        rep.bad("biggest", f"{where}: stated components {comps}")
        return False
    # one common factor (adaptive steps)
    fac = 1.0
    if s.get("stepcontrol"):
        fac = abs(rel[comps[0] - 1] / stated[0][1]) if stated[0][1] else 1.0
    for n, (c, v) in enumerate(stated):
        if abs(rel[c - 1] - fac * v) > fac * (1e-4 + 1e-4 * abs(v)) + 1e-9:
            rep.bad("biggest", f"{where}: component {c} moved by {rel[c - 1] / fac:.5f} of its limit, {v} stated")
            return False
        others = [abs(rel[o]) for o in range(len(d)) if o + 1 not in comps[:n]]
        if max(others) > abs(rel[c - 1]) * (1 + 1e-3) + fac * 2e-4:
            rep.bad("biggest", f"{where}: component {c} is stated as number {n + 1}, but others moved more")
            return False
    j = int(total[3])
    if 0 < abs(j) <= len(d) and abs(d[abs(j) - 1]) <= 2 * 10.0 ** -s.get("ftol", 8):
        return True  # smaller than the tolerance of the control equation
    if j == 0 or abs(j) > len(d) or rel[abs(j) - 1] * np.sign(j) <= 0:
        rep.bad("control", f"{where}: control component {j} is stated, the component moved by {rel[abs(j) - 1] if abs(j) <= len(d) else None}")
        return False
    if not s.get("stepcontrol") and abs(abs(rel[abs(j) - 1]) - 1) > 1e-6 + 10.0 ** -s.get("ftol", 8) / lim[abs(j) - 1]:
        rep.bad("control", f"{where}: control component {j} is stated, it moved by {rel[abs(j) - 1]:.6f} of its limit")
        return False
    return True


