"""C16: plots show what was recorded, on their own figure."""
import contextlib
import os
import sys

import numpy as np

from .. import figures
from .. import gen as G
from .. import model, runner, sched
from .. import world as W
from . import path

ID = "C16"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 20000
COMPONENTS = {
    "real": path.COMPONENTS["real"] + ["Model.plot_model, plot_history, plot_path and trusspy.tools", "matplotlib (Agg)"],
    "stub": path.COMPONENTS["stub"] + ["array allocation (may fail)", "clocks (virtual)"],
}
ASSUMPTIONS = path.ASSUMPTIONS + [
    "a plot that was interrupted may leave a part of itself, in a new figure or in the one it was given",
    "state variables (recorded per element, asked for by node) are not asked for",
    "increments without loads and nodes are not plotted as models",
]
STATES = "distinct (models, kinds of plots, faults fired, ends of the runs)"
RULE = (
    "1-3 models, interleaved runs (with solver faults), rebuilds and plots of models, histories and paths in new "
    "and given figures, some interrupted at a line or an allocation, from (VERIF_SEED, C16, i). Non-trivial: a "
    "fault or an interruption fired, or plots of several models were interleaved"
)
PROBES = ("plot.model", "plot.history", "plot.path", "plot.parts", "plot.movie", "plot.into", "plot.interrupted", "probe.after_interrupt",
          "probe.several", "probe.early_end", "probe.increments", "probe.3d", "probe.contour", "probe.undeformed",
          "probe.rerun", "probe.odd_labels", "form.array", "form.tuple", "form.range")
QUANT = ["Displacement X", "Displacement Y", "Displacement Z", "LPF", "Force X", "Force Y", "Force Z"]


def quantity(rng):
    return rng.choice(QUANT + ["Increments", "LPF", "Displacement Z"])


def gen(rng, i, tier):
    specs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        s = G.scenario(rng, max_steps=3, incs=rng.choice([3, 6, 12]))
        s["log"] = 0
        specs.append(s)
    ops = [["run", k, G.faults(rng, G.horizon(rng, s, 30), s) if rng.random() < 0.5 else []] for k, s in enumerate(specs)]
    for _ in range(rng.randrange(3, 9)):
        k = rng.randrange(len(specs))
        nodes = [n[0] for n in specs[k]["nodes"]]
        kind = rng.choice(["model", "history", "history", "path", "path", "run", "build", "parts", "movie"] if rng.random() < 0.3
                          else ["model", "history", "path"])
        cut = None
        if rng.random() < 0.25 and kind not in ("run", "build"):
            cut = [rng.choice(["line", "line", "alloc"]), int(10 ** rng.uniform(0, 2.3)), rng.choice(
                ["KeyboardInterrupt", "MemoryError", "RuntimeError"])]
        into = rng.randrange(4) if rng.random() < 0.4 else None
        if kind == "run":
            ops.append(["run", k, G.faults(rng, 30, specs[k]) if rng.random() < 0.5 else []])
        elif kind == "build":
            ops.append(["build", k])
        elif kind == "model":
            contour = rng.choice([None, "force", "stress", "stretch"])
            view = rng.choice(["xz", "xz", "xy", "yz", "3d"])
            form = rng.choice(FORMS)
            limits = "auto" if rng.random() < 0.6 else sorted([G.r4(rng.uniform(-1, 1)), G.r4(rng.uniform(1.1, 2))])
            scales = [1.2, 1.2, 2.0, -3, 0.9, [-3, 4], [-3, 4, -2, 5]]
            if view == "3d":
                scales = [1.2, 2.0, -3, 150, [-3, 4, -2, 5, -1, 6]]
            ops.append(["model", k, dict(
                view=view, contour=contour, cbar_limits=limits, lim_scale=rng.choice(scales), form=form,
                pair=rng.random() < 0.3, nodesize=rng.choice([10, 10, 4]),
                force_scale=rng.choice([1.0, 0.5, 2.0]), inc=rng.choice([-1, -1, -2, 0, 1, 2, 5, 9]),
            ), cut])
        elif kind == "parts":
            ops.append(["parts", k, rng.sample(["nodes", "elements", "extforces"], rng.randrange(1, 4)),
                        rng.choice(["undeformed", "deformed"]), None])
        elif kind == "movie":
            ops.append(["movie", k, rng.choice(["all", [1], [1, 2], [2]]), cut])
        elif kind == "history":
            ops.append(["history", k, [rng.choice(nodes), rng.choice(nodes)], quantity(rng), quantity(rng),
                        rng.choice(FORMS), into, cut])
        else:
            p = [rng.choice(nodes) for _ in range(rng.randrange(1, 6))]
            form = rng.choice(FORMS)
            lo, hi = min(nodes), max(nodes)
            if sorted(nodes) == list(range(lo, hi + 1)) and rng.random() < 0.4:
                a = rng.randrange(lo, hi + 1)
                p, form = list(range(a, rng.randrange(a, hi + 1) + 1)), "range"
            ops.append(["path", k, p, rng.choice([-1, -1, -2, 0, 1, 3, 7]), rng.choice(QUANT), form, into, cut])
    return dict(specs=specs, ops=ops, api=rng.choice(["single", "list", "raw"]))


FORMS = ["list", "list", "tuple", "array"]


def given(form, v):
    "a list as the caller gives it"
    if form == "range":
        return range(v[0], v[-1] + 1)
    return np.array(v) if form == "array" else tuple(v) if form == "tuple" else list(v)


class Gallery:
    "all figures, what they show and what has been plotted into them"

    def __init__(self):
        self.known = {}  # number: (figure, content)

    def look(self):
        import matplotlib.pyplot as plt

        return {n: plt.figure(n) for n in plt.get_fignums()}

    def state(self):
        import matplotlib.pyplot as plt

        cur = plt.gcf().number if plt.get_fignums() else None
        out = {n: figures.content(f) + repr(tuple(f.get_size_inches())) for n, f in self.look().items()}
        if cur is not None:
            plt.figure(cur)
        return out


def values(name, m, node, labels):
    d = {"X": 0, "Y": 1, "Z": 2}
    R = m.Results.R
    if name == "Increments":
        return list(range(len(R)))
    if name == "LPF":
        return [float(r.lpf) for r in R]
    field = "U" if name.startswith("Disp") else "r"
    return [float(np.asarray(getattr(r, field))[labels.index(node), d[name[-1]]]) for r in R]


def same(got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and np.array_equal(got, want)


def parts(m, which, config):
    "nodes, elements and loads in a new figure of the user"
    import matplotlib.pyplot as plt

    fig = plt.figure()
    for x in which:
        getattr(m, "plt_" + x)(config)
    return fig, fig.gca()


def movie(m, incs):
    "a movie in the scratch folder, with small pictures"
    import matplotlib.figure

    from . import c13

    os.environ["IMAGEIO_USERDIR"] = os.getcwd()
    c13.LOST.clear()
    real = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = c13.fake_savefig
    try:
        m.plot_movie(incs=incs)
    finally:
        matplotlib.figure.Figure.savefig = real
    return None, None


def audit_parts(fig, m, spec, r, which, config):
    X = {l: np.array(c, float) + (np.asarray(r.U)[k] if config == "deformed" else 0) for k, (l, c) in
         enumerate(sorted(spec["nodes"]))}
    X = {l: x[[0, 2]] for l, x in X.items()}
    ax = fig.gca()
    want = np.array([X[l] for l in sorted(X)])
    if "nodes" in which and not any(figures.near(np.asarray(c.get_offsets(), float), want) for c in ax.collections):
        return f"the nodes ({config}) are not drawn"
    if "elements" in which:
        segs = [figures.points(x) for x in ax.lines]
        for e in spec["elements"]:
            ends = np.array([X[n] for n in e[1]])
            if not any(figures.near(p, ends) or figures.near(p, ends[::-1]) for p in segs):
                return f"element {e[0]} ({config}) is not drawn"
    if "extforces" in which:
        got = sorted([p._x, p._y, p._dx, p._dy] for p in ax.patches if hasattr(p, "_dx"))
        due = []
        for l, f in spec["forces"]:
            for a in (0, 1):
                if f[2 * a]:
                    d = [0.0, 0.0]
                    d[a] = 0.5 * f[2 * a]
                    due.append([*X[l], *d])
        if len(got) != len(due) or due and not np.allclose(got, sorted(due), rtol=1e-9, atol=1e-9):
            return f"{len(due)} loads ({config}) are not drawn as they act"


def run(case, rep):
    import matplotlib.pyplot as plt

    plt.close("all")
    ms, ran, snaps = [], [], []
    old, sys.stdout = sys.stdout, W.Out()
    try:
        for s in case["specs"]:
            ms.append(model.make(s, api=case["api"]))
            ran.append(False)
            snaps.append(None)
        if len(ms) > 1:
            rep.stats["probe.several"] += 1
        go(case, rep, ms, ran, snaps)
    finally:
        sys.stdout = old
        plt.close("all")


def go(case, rep, ms, ran, snaps):
    import matplotlib.pyplot as plt

    gal = Gallery()
    axes = []  # (fig, ax) of history and path plots
    interrupted = False
    kinds, ends, users = set(), [], set()
    for n, op in enumerate(case["ops"]):
        kind, k = op[0], op[1]
        m, spec = ms[k], case["specs"][k]
        where = f"operation {n + 1} ({kind})"
        if kind in ("run", "build"):
            w = W.World(op[2] if kind == "run" else [], budget=6000)
            if ran[k]:
                rep.stats["probe.rerun"] += 1
            r = model.Run(m, w, run=kind == "run")
            rep.world(w)
            rep.part(kind, r.status)
            ran[k] = r.status == "ok"
            ends.append(r.status)
            snaps[k] = [model.snap(x) for x in r.R] if ran[k] else None
            if ran[k] and kind == "run":
                total = spec["settings"].get("incs", 50)
                total = sum(total) if isinstance(total, list) else total * spec["settings"].get("nsteps", 1)
                rep.stats["probe.early_end"] += len(r.R) - 1 < total
            continue
        if not ran[k]:
            continue
        kinds.add(kind)
        users.add(k)
        labels = sorted(x[0] for x in spec["nodes"])
        if labels != list(range(1, len(labels) + 1)):
            rep.stats["probe.odd_labels"] += 1
        R = m.Results.R
        cut = op[-1]
        args, target, before_lines = None, None, []
        if kind == "model":
            kw = dict(op[2])
            i = kw["inc"]
            if not -len(R) <= i < len(R):
                kw["inc"] = i = len(R) - 1
            form, pair = kw.pop("form"), kw.pop("pair")
            send = dict(kw)
            if isinstance(kw["cbar_limits"], list):
                send["cbar_limits"] = given(form, kw["cbar_limits"])
                if pair and kw["contour"]:  # contour and limits together
                    send["contour"] = (kw["contour"], send.pop("cbar_limits"))
            if isinstance(kw["lim_scale"], list):
                kw["lim_scale"] = tuple(kw["lim_scale"])
                send["lim_scale"] = given(form, kw["lim_scale"])
            rep.stats["form." + form] += 1
            call = lambda: m.plot_model(**send)  # noqa: E731
        elif kind == "parts":
            call = lambda: parts(m, op[2], op[3])  # noqa: E731
        elif kind == "movie":
            incs = op[2] if op[2] == "all" else [i for i in op[2] if i < len(R)]
            if len(R) < 2 or not incs:
                continue
            call = lambda: movie(m, incs)  # noqa: E731
        else:
            into = op[-2]
            if into is not None and axes:
                target = axes[into % len(axes)]
                before_lines = list(target[1].lines)
                rep.stats["plot.into"] += 1
            fa = dict(fig=target[0], ax=target[1]) if target else {}
            if kind == "history":
                call = lambda: m.plot_history(nodes=given(op[5], op[2]), X=op[3], Y=op[4], **fa)  # noqa: E731
            else:
                rep.stats["form." + op[5]] += 1
                i = op[3] if -len(R) <= op[3] < len(R) else len(R) - 1
                call = lambda: m.plot_path(given(op[5], op[2]), increment=i, Y=op[4], **fa)  # noqa: E731
        before = gal.state()
        w = W.World(alloc={cut[1] % 20} if cut and cut[0] == "alloc" else None, clock=dict(wall=[0.01], cpu=[0.01]))
        tr = sched.LineCrash(cut[1], W.make_exc(cut[2]), w) if cut and cut[0] == "line" else contextlib.nullcontext()
        status = "ok"
        with W.active(w):
            try:
                with tr:
                    fig, ax = call()
            except (Exception, KeyboardInterrupt) as e:
                fired = [x for x in w.stats if x.startswith("crash.") or x == "fault.alloc"]
                if not fired:
                    rep.bad("plot-fails", f"{where} of a model with results failed: {type(e).__name__}: {e}")
                    return
                status = type(e).__name__
        rep.world(w)
        rep.part(kind, status)
        after = gal.state()
        mine = target[0].number if target else None
        new = sorted(set(after) - set(before))
        for x, c in before.items():
            if x not in after:
                rep.bad("other-figure", f"{where}: an earlier figure was closed")
                return
            if x != mine and after[x] != c:
                rep.bad("other-figure", f"{where} changed an earlier figure it was not given")
                return
        d = model.diff(snaps[k], [model.snap(r) for r in m.Results.R]) if snaps[k] else None
        if d:
            rep.bad("results-changed", f"{where} changed the results: {d}")
            return
        if status != "ok":
            rep.stats["plot.interrupted"] += 1
            interrupted = True
            continue
        rep.stats["plot." + kind] += 1
        if interrupted:
            rep.stats["probe.after_interrupt"] += 1
        if kind == "movie":
            continue  # what it shows: C13
        if target is None:
            if new != [fig.number]:
                rep.bad("figures", f"{where}: {len(new)} new figures")
                return
        elif new or fig is not target[0] or ax is not target[1]:
            rep.bad("figures", f"{where}: not drawn in the figure that was given")
            return
        if ax.figure is not fig:
            rep.bad("figures", f"{where}: the axes are not those of the figure")
            return
        if kind == "model":
            i = kw["inc"] if kw["inc"] >= 0 else len(R) + kw["inc"]
            rep.stats["probe.3d"] += kw["view"] == "3d"
            rep.stats["probe.contour"] += bool(kw["contour"])
            rep.stats["probe.undeformed"] += i == 0
            p = figures.audit(fig, m, spec, R[i], i, kw["view"], kw["contour"], kw["cbar_limits"], kw["force_scale"])
            if not p and isinstance(kw["lim_scale"], tuple):
                l = kw["lim_scale"]
                lims = tuple(ax.get_xlim()) + tuple(ax.get_ylim()) + (tuple(ax.get_zlim()) if len(l) == 6 else ())
                if not np.allclose(lims, l * 2 if len(l) == 2 else l):
                    p = f"limits {lims}, {l} were asked for"
            if p:
                rep.bad("wrong-model-plot", f"{where}: {p}")
                return
            continue
        if kind == "parts":
            p = audit_parts(fig, m, spec, R[-1], op[2], op[3])
            if p:
                rep.bad("wrong-parts", f"{where}: {p}")
                return
            continue
        axes.append((fig, ax))
        lines = list(ax.lines)
        if lines[: len(before_lines)] != before_lines or len(lines) != len(before_lines) + 1:
            rep.bad("wrong-line", f"{where}: {len(lines) - len(before_lines)} lines were added, or others removed")
            return
        x, y = lines[-1].get_data(orig=True)
        if kind == "history":
            wx, wy = (values(q, m, node, labels) for q, node in zip((op[3], op[4]), op[2]))
            rep.stats["probe.increments"] += "Increments" in (op[3], op[4])
            if "Increments" not in (op[3], op[4]) and len(x) == len(wx) + 1 and x[0] == y[0] == 0:
                x, y = x[1:], y[1:]  # starts at the origin
            if not (same(x, wx) and same(y, wy)):
                rep.bad("wrong-history", f"{where}: {op[3]} against {op[4]} of nodes {op[2]} is not what was recorded")
                return
            if (ax.get_xlabel(), ax.get_ylabel()) != (op[3], op[4]):
                rep.bad("wrong-labels", f"{where}: axes are called {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
                return
        else:
            wy = [values(op[4], m, node, labels)[i] for node in op[2]]
            if not same(y, wy):
                rep.bad("wrong-path", f"{where}: {op[4]} along {op[2]} in entry {i} is not what was recorded")
                return
            if list(np.asarray(x, float)) != sorted(np.asarray(x, float)) or ax.get_ylabel() != op[4]:
                rep.bad("wrong-path", f"{where}: the nodes are not in the order of the path")
                return
    if len(users) > 1:
        rep.nontrivial = True
    rep.key(len(ms), sorted(kinds), sorted(set(ends)), interrupted, len(users))


def shrink(case):
    for ops in runner.shrink_list(case["ops"], least=1):
        yield dict(case, ops=ops)
    for n, op in enumerate(case["ops"]):
        def sub(o):
            return dict(case, ops=case["ops"][:n] + [o] + case["ops"][n + 1 :])

        if op[0] == "run":
            for fl in runner.shrink_faults(op[2]):
                yield sub([op[0], op[1], fl])
        elif op[0] != "build" and op[-1]:
            yield sub(op[:-1] + [None])
    used = sorted({o[1] for o in case["ops"]})
    if len(used) < len(case["specs"]):
        yield dict(case, specs=[case["specs"][k] for k in used], ops=[[o[0], used.index(o[1])] + o[2:] for o in case["ops"]])
    for k, s in enumerate(case["specs"]):
        for s2 in runner.shrink_spec(s):
            yield dict(case, specs=case["specs"][:k] + [s2] + case["specs"][k + 1 :])
