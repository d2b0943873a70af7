"""Reads matplotlib figures: does a picture show the truss as it was recorded?"""
import numpy as np

AXES = dict(xz=[0, 2], xy=[0, 1], yz=[1, 2])
AXES["3d"] = [0, 1, 2]
FIELD = dict(force="element_force", stress="element_stress", stretch="stretch")


def points(line):
    d = line.get_data_3d() if hasattr(line, "get_data_3d") else line.get_data()
    return np.array([np.asarray(x, float) for x in d]).T


def near(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def contour_color(value, lo, hi):
    "color of the ten-part map, or None next to a limit of two colors"
    import matplotlib.pyplot as plt

    if not hi > lo:
        return None
    at = (value - lo) / (hi - lo) * 10
    if abs(at - round(at)) < 1e-6:
        return None
    cmap = plt.get_cmap("bwr", 10)
    cmap.set_over("0.95")
    cmap.set_under("0.6")
    return cmap((value - lo) / (hi - lo))


def audit(fig, m, spec, r, i, view="xz", contour=None, limits="auto", scale=0.5):
    "does the figure show the truss as recorded in entry r (number i)?  -> what is wrong, or None"
    dims = AXES[view]
    if i == 0:
        contour = None
    X = {l: (np.array(c, float) + np.asarray(r.U)[k])[dims] for k, (l, c) in enumerate(sorted(spec["nodes"]))}
    title = " ".join(ax.get_title() for ax in fig.axes)
    if str(i) not in title.replace(",", " ").split() and not (i == 0 and "undeformed" in title.lower()):
        return f"the title of increment {i} is {title!r}"
    dots, segs = [], []
    for ax in fig.axes:
        for c in ax.collections:
            o = np.asarray(c.get_offsets(), float)
            if view != "3d" and len(o) == len(X):
                dots.append(o)
        for line in ax.lines:
            if line.get_alpha() == 0:
                continue
            p = points(line)
            if len(p) == 2:
                segs.append((p, line.get_color()))
            if view == "3d" and len(p) == len(X):
                dots.append(p)
    want = np.array([X[l] for l in sorted(X)])
    if not any(near(d, want) for d in dots):
        return f"increment {i}: the nodes are not at their recorded positions"
    by_label = {e[0]: e for e in spec["elements"]}
    values = None
    if contour:
        values = np.asarray(getattr(r, FIELD[contour]), float)[:, 0]
        if limits == "auto":
            mid = 1.0 if contour == "stretch" else 0.0
            top = np.abs(values - mid).max()
            lo, hi = mid - top, mid + top
            if top <= 1e-12:
                values = None
        else:
            lo, hi = limits
    used = []
    for k, l in enumerate(int(x) for x in m.Elements.labels):
        a, b = by_label[l][1]
        mine = [(p, c) for p, c in segs if near(p, np.array([X[a], X[b]])) or near(p, np.array([X[b], X[a]]))]
        if not mine:
            return f"increment {i}: element {l} is not drawn between its nodes"
        used += [id(p) for p, _ in mine]
        if values is not None:
            col = contour_color(values[k], lo, hi)
            if col is not None and not any(np.allclose(c, col) for _, c in mine if not isinstance(c, str)):
                return f"increment {i}: element {l} has not the color of its {contour}"
    if any(id(p) not in used for p, _ in segs):
        return f"increment {i}: something is drawn where no element is"
    return arrows(fig, spec, r, i, want, dims, scale)


def arrows(fig, spec, r, i, want, dims, scale):
    width = max(len(f) for _, f in spec["forces"])
    F = np.zeros((len(want), width))
    order = [l for l, _ in sorted(spec["nodes"])]
    for l, f in spec["forces"]:
        F[order.index(l)] = f
    k = int(r.step) - 1
    lpf = 1.0 if i == 0 else float(r.lpf)
    load = np.asarray(r.ExtForces.forces_const, float) + lpf * F[:, 3 * k : 3 * k + 3]
    n = len(dims)
    due = []
    for j in range(len(want)):
        for a in range(n):
            if load[j, dims[a]] != 0:
                d = np.zeros(n)
                d[a] = scale * load[j, dims[a]]
                due.append(np.append(want[j], d))
    patches = [p for ax in fig.axes for p in ax.patches]
    if n == 2:
        drawn = [np.array([p._x, p._y, p._dx, p._dy], float) for p in patches if hasattr(p, "_dx")]
    else:
        drawn = []
        for p in patches:
            if hasattr(p, "_verts3d"):
                v = np.array([np.asarray(x, float) for x in p._verts3d]).T
                drawn.append(np.append(v[0], v[1] - v[0]))
        # the coordinate system at the origin
        drawn = [d for d in drawn if np.abs(d[:3]).max() > 0 or (d[3:] != 0).sum() != 1 or d[3:].max() <= 0 or any(
            np.allclose(x, d, rtol=1e-9, atol=1e-9) for x in due)]
    if not drawn and patches:
        return None  # drawn by other means
    rest = list(drawn)
    for d in due:
        hit = next((j for j, x in enumerate(rest) if np.allclose(x, d, rtol=1e-9, atol=1e-9)), None)
        if hit is None:
            return f"increment {i}: no arrow for the load {d[n:] / scale} at {d[:n]}"
        rest.pop(hit)
    if rest:
        return f"increment {i}: an arrow for a load that does not act"


def content(fig):
    "what a figure shows, as comparable data (order of drawing kept)"
    out = []
    for ax in fig.axes:
        one = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
        for line in ax.lines:
            one.append((points(line).round(12).tobytes(), str(line.get_color()), str(line.get_label())))
        for c in ax.collections:
            if hasattr(c, "get_offsets"):
                one.append(np.asarray(c.get_offsets(), float).round(12).tobytes())
        one += [t.get_text() for t in ax.texts]
        one.append(len(ax.patches))
        out.append(one)
    return repr(out)
