"""C12: log files are complete and standard output is given back."""
import errno
import os
import sys

from .. import boot
from .. import gen as G
from .. import model, runner
from .. import world as W
from . import path

ID = "C12"
LEVEL = "exploration"
QUICK, THOROUGH = 2200, 60000
COMPONENTS = {
    "real": path.COMPONENTS["real"] + ["log file on a real file system (scratch folder)", "contextlib, io text layer"],
    "stub": ["standard output of the process (recording stream)", "clocks (virtual)",
             "raw file (real file with injected open/write faults, short writes, full disk)"],
}
ASSUMPTIONS = path.ASSUMPTIONS + [
    "lines that consist of a code fence only do not count as text",
    "models log to different files; calls are made one after the other (in any interleaving)",
    "nobody else replaces standard output meanwhile",
]
STATES = "distinct (models, log levels, sequence of calls and outcomes, kinds of faults)"
RULE = (
    "1-3 models with and without log file, interleaved calls, solver faults, crashes, log file faults from "
    "(VERIF_SEED, C12, i); the log is compared with what the same model prints alone without a log file. "
    "Non-trivial: a fault or crash fired or calls of several models interleaved"
)
PROBES = ("probe.log_compared", "probe.log_after_error", "probe.error_raised", "fault.io.open", "fault.io.write",
          "fault.io.full", "fault.io.short", "probe.overlap", "probe.leftover", "probe.chdir", "probe.build_error",
          "fault.stdout")

NAMES = ["analysis", "my log", "run.v2", "Stahl-größe", "a/b", "ABS"]
CRASH = ["MemoryError", "RuntimeError", "KeyboardInterrupt", "SystemExit", "FloatingPointError"]


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    models = []
    names = rng.sample(NAMES, n)
    for k in range(n):
        spec = G.scenario(rng, max_steps=2, family=rng.choice(["bar", "bar", "twobar", "tripod"]),
                          incs=rng.choice([1, 2, 3, 6]))
        spec["log"] = rng.choice([0, 1, 2, 2, 3])
        logged = k == 0 or rng.random() < 0.6
        d = dict(spec=spec, logged=logged, name=names[k], faults=G.faults(rng, 40, spec) if rng.random() < 0.5 else [],
                 crash=None, io={}, rounds=rng.choice([1, 1, 1, 2]), leftover=rng.random() < 0.25,
                 broken=rng.random() < 0.12,
                 clock=dict(wall=[G.r4(rng.uniform(0, 2))], cpu=[G.r4(rng.uniform(0, 1))]))
        if rng.random() < 0.4:
            seam = rng.choice(["solve", "solve", "solve", "clock"])
            d["crash"] = [seam, rng.randrange(0, 40 if seam == "solve" else 6), rng.choice(CRASH)]
        if logged and rng.random() < 0.4:
            what = rng.choice(["open", "write", "write", "full", "short", "short", "interrupt"])
            if what == "open":
                d["io"]["fail"] = {str(rng.randrange(0, 4)): rng.choice([errno.EACCES, errno.ENOSPC, errno.EIO, errno.EMFILE])}
            elif what == "write":
                first = rng.randrange(0, 8)
                d["io"]["write_fail"] = {
                    str(j): rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])
                    for j in range(first, first + rng.choice([1, 1, 2, 50]))
                }
            elif what == "full":
                d["io"]["space"] = rng.choice([0, 1, 100, 700, 5000, 20000])
            elif what == "interrupt":
                d["io"]["write_fail"] = {str(rng.randrange(0, 6)): "interrupt"}
            else:
                d["io"]["chunk"] = rng.choice([1, 7, 100, 4096])
        models.append(d)
    # the calls, merged
    left = {k: ["create", "build", "run"] + ["build", "run"] * (d["rounds"] - 1) for k, d in enumerate(models)}
    seq = []
    sequential = n > 1 and rng.random() < 0.25
    while left:
        k = min(left) if sequential else rng.choice(list(left))
        if rng.random() < 0.25:
            seq.append(["say", None])
        if rng.random() < 0.1:
            seq.append(["chdir", None])
        seq.append([left[k].pop(0), k])
        if not left[k]:
            del left[k]
    seq.append(["say", None])
    return dict(models=models, seq=seq, no_stdout=rng.random() < 0.08 and all(d["logged"] for d in models))


class One:
    "one model and its calls"

    def __init__(self, d, k, logged, root):
        self.d, self.k, self.logged = d, k, logged
        self.root = root
        self.w = W.World(d["faults"], budget=2500, crash=d["crash"], clock=d["clock"], name=f"m{k}")
        self.m = None
        self.dead = False
        self.file = None
        self.status = []
        self.w.printed = []
        if logged:
            self.w.io = W.IOSim(root, d["io"], stats=self.w.stats, ev=self.w.ev)

    def create(self):
        import trusspy as tp

        kw = {}
        if self.logged:
            name = self.d["name"]
            if name == "ABS":
                name = os.path.join(self.root, "elsewhere", "abs")
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            self.file = os.path.abspath(name + ".md")
            if self.d["leftover"]:
                with boot.real_open(self.file, "w") as f:
                    f.write("old text\n" * 500)
            kw = dict(logfile=True, logfile_name=name)
        with W.active(self.w):
            self.m = tp.Model(log=self.d["spec"]["log"], **kw)
        spec = self.d["spec"]
        if self.d["broken"]:
            spec = dict(spec, bounds=spec["bounds"] + [[987654, [0, 0, 0]]])
        model.define(self.m, spec)
        model.apply_settings(self.m, spec["settings"])

    def call(self, what):
        "-> name of the exception or 'ok'"
        if self.dead or (what == "run" and self.status and self.status[-1][0] == "build" and self.status[-1][1] != "ok"):
            return "skipped"
        try:
            if what == "create":
                self.create()
            else:
                with W.active(self.w):
                    getattr(self.m, what)()
            s = "ok"
        except W.SimBudget:
            s = "SimBudget"
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            s = type(e).__name__
            if what == "create":
                self.dead = True
        self.status.append([what, s])
        return s


def baseline(case, k, root):
    "what the model prints without a log file, per call"
    os.makedirs(root)
    os.chdir(root)
    one = One(case["models"][k], k, False, root)
    parts = []
    for what, who in case["seq"]:
        if who != k:
            continue
        out = W.Out()
        old, sys.stdout = sys.stdout, out
        try:
            s = one.call(what)
        finally:
            sys.stdout = old
        parts.append([what, s, out.text()])
    return parts


def strip(text):
    return "".join(l for l in text.splitlines(keepends=True) if l.strip() != "```")


def run(case, rep):
    top = os.getcwd()
    base = [
        runner.forked(lambda k=k: baseline(case, k, os.path.join(top, f"base{k}"))) for k in range(len(case["models"]))
    ]
    root = os.path.join(top, "work")
    os.makedirs(root)
    os.chdir(root)
    ones = [One(d, k, d["logged"], root) for k, d in enumerate(case["models"])]
    at = [0] * len(ones)
    due = ["" for _ in ones]  # text owed by the log
    sound = [True] * len(ones)  # the log can still be compared
    want_out = []
    out = W.Out()
    if case["no_stdout"]:
        out = W.Out(ones[0].w, fail_at=0)
    old, sys.stdout = sys.stdout, out
    said = 0
    seen = []
    try:
        for what, who in case["seq"]:
            if what == "say":
                if not case["no_stdout"]:
                    print("user text", said)
                    want_out.append(f"user text {said}\n")
                    said += 1
                continue
            if what == "chdir":
                os.makedirs("deeper", exist_ok=True)
                os.chdir("deeper")
                rep.stats["probe.chdir"] += 1
                continue
            one = ones[who]
            s = one.call(what)
            if s == "skipped":
                at[who] += 1
                continue
            seen.append((who, what, s))
            b = base[who][at[who]]
            at[who] += 1
            here = f"model {who + 1}, {what}() [{s}]"
            said_here, one.w.printed = one.w.printed, []
            if one.logged and one.w.leaked:
                rep.bad("text-on-stdout", f"{here}: {one.w.leaked[0][:80]!r} went to the standard output that was in "
                        "place when the package was imported, or to standard error")
                return
            if one.logged and what in ("run", "build") and sys.stdout is not out:
                rep.bad("stdout-kept", f"{here}: standard output is {type(sys.stdout).__name__} afterwards")
                return
            if not one.logged:
                want_out.append(b[2])
                if s != b[1]:
                    rep.bad("outcome", f"{here}: alone it ended with {b[1]}")
                    return
                continue
            fired = [k for k in one.w.stats if k in ("fault.io.open", "fault.io.write", "fault.io.full", "fault.io.interrupt")]
            due[who] += b[2]
            if not sound[who]:
                continue
            if s != b[1]:
                if not fired and not case["no_stdout"]:
                    rep.bad("outcome", f"{here}: without a log file it ends with {b[1]}")
                    return
                if s == "ok":
                    rep.bad("outcome", f"{here}: without a log file it ends with {b[1]}")
                    return
                if case["no_stdout"] and not fired:
                    rep.bad("text-on-stdout", f"{here}: something was written to standard output")
                    return
                sound[who] = False  # the caller has been told
                rep.stats["probe.error_raised"] += 1
                rep.nontrivial = True
                continue
            if s != "ok":
                rep.stats["probe.build_error" if what == "build" else "probe.log_after_error"] += 1
                if fired:
                    sound[who] = False  # an error arrived, it may hide the one of the log
            if sound[who] and what in ("run", "build"):
                if not os.path.isfile(one.file):
                    rep.bad("no-log", f"{here}: there is no log file {os.path.basename(one.file)}")
                    return
                with boot.real_open(one.file, encoding="utf-8", newline="") as f:
                    text = f.read()
                rep.stats["probe.log_compared"] += 1
                if one.d["leftover"]:
                    rep.stats["probe.leftover"] += 1
                lost = missing(text, said_here)
                if lost is not None:
                    rep.bad("lost-text", f"{here}: printed, but not in the log: {lost[:80]!r}")
                    return
                d = difference(strip(text), strip(due[who]))
                if d:
                    kind = "silent-truncation" if fired else "log-text"
                    rep.bad(kind, f"{here}: {d}")
                    return
        if sys.stdout is not out:
            rep.bad("stdout-kept", "standard output is not given back at the end")
            return
    finally:
        sys.stdout = old
        os.chdir(top)
    d = difference(out.text(), "".join(want_out))
    if d and not case["no_stdout"]:
        rep.bad("text-on-stdout", d)
        return
    for one in ones:
        rep.world(one.w)
        if one.w.io is not None and one.w.io.escapes:
            rep.bad("escape", f"model {one.k + 1} touched {one.w.io.escapes[0]}")
            return
    if case["no_stdout"]:
        rep.stats["fault.stdout"] += 1
    owners = [w for w, _, _ in seen]
    overlap = sum(a != b for a, b in zip(owners, owners[1:])) > len(ones) - 1
    if overlap:
        rep.stats["probe.overlap"] += 1
        rep.nontrivial = True
    rep.part(seen, out.text())
    rep.key([d["spec"]["log"] if d["logged"] else "-" for d in case["models"]],
            [x[1:] if len(ones) == 1 else x for x in seen],
            sorted(k for o in ones for k in o.w.stats if k.startswith("fault.io")))


def missing(text, chunks):
    "the first of the printed chunks that is not in the text (in this order), or None"
    at = 0
    for c in chunks:
        k = text.find(c, at)
        if k < 0:
            return c
        at = k + len(c)
    return None


def difference(got, want):
    if got == want:
        return None
    a, b = got.splitlines(), want.splitlines()
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"line {i + 1} of {len(a)} is {x[:80]!r} instead of {y[:80]!r}"
    return f"{len(a)} lines instead of {len(b)}" + (
        f", next would be {b[len(a)][:60]!r}" if len(a) < len(b) else f", too much: {a[len(b)][:60]!r}" if len(a) > len(b) else ""
    )


def shrink(case):
    n = len(case["models"])
    if n > 1:
        for drop in range(n):
            yield dict(
                case, models=case["models"][:drop] + case["models"][drop + 1 :],
                seq=[[w, k if k is None or k < drop else k - 1] for w, k in case["seq"] if k is None or k != drop],
            )
    for i, (w, k) in enumerate(case["seq"]):
        if k is None:
            yield dict(case, seq=case["seq"][:i] + case["seq"][i + 1 :])
    if case["no_stdout"]:
        yield dict(case, no_stdout=False)
    for k, d in enumerate(case["models"]):
        put = lambda e: dict(case, models=case["models"][:k] + [e] + case["models"][k + 1 :])  # noqa: E731
        if d["crash"]:
            yield put(dict(d, crash=None))
        if d["io"]:
            yield put(dict(d, io={}))
        if d["leftover"]:
            yield put(dict(d, leftover=False))
        if d["broken"]:
            yield put(dict(d, broken=False))
        if d["name"] != "analysis" and all(e["name"] != "analysis" for e in case["models"]):
            yield put(dict(d, name="analysis"))
        for f in runner.shrink_faults(d["faults"]):
            yield put(dict(d, faults=f))
        for s in runner.shrink_spec(d["spec"]):
            yield put(dict(d, spec=dict(s, log=d["spec"]["log"])))
