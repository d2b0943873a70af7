"""small trusses and what they must feel, computed independently"""
import contextlib
import io
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
import trusspy as tp


def model(nodes, elements, bounds, forces, log=0, **settings):
    "elements: (label, conn, E, A, plastic); settings are set one by one"
    m = tp.Model(log=log)
    define(m, nodes, elements, bounds, forces)
    for k, v in settings.items():
        setattr(m.Settings, k, v)
    return m


def define(m, nodes, elements, bounds, forces):
    for l, c in nodes:
        m.Nodes.add_node(l, coord=c)
    for e in elements:
        l, conn, E, A = e[:4]
        plastic = e[4] if len(e) > 4 else None
        m.Elements.add_element(
            l, conn=list(conn), mat_type=2 if plastic else 1,
            material_properties=[E, *plastic] if plastic else [E, 0.0, 0.0], geometric_properties=[A],
        )
    for l, b in bounds:
        m.Boundaries.add_bound_U(l, b)
    for l, f in forces:
        m.ExtForces.add_force(l, f)


def twobar(h=0.5, plastic=None, forces=((2, (0.0, 0.0, -1.0)),)):
    return (
        [(1, (0.0, 0.0, 0.0)), (2, (1.0, 0.0, h)), (3, (2.0, 0.0, 0.0))],
        [(1, (1, 2), 1.0, 1.0, plastic), (2, (2, 3), 1.0, 1.0, plastic)],
        [(1, (0, 0, 0)), (2, (1, 0, 1)), (3, (0, 0, 0))],
        list(forces),
    )


def cantilever(bays=2, plastic=None, forces=None):
    "planar truss in the x-z plane, clamped at its left end"
    nodes, els = [], []
    for i in range(bays + 1):
        nodes += [(2 * i + 1, (float(i), 0.0, 0.0)), (2 * i + 2, (float(i), 0.0, 1.0))]
    k = 0
    for i in range(bays):
        a, b, c, d = 2 * i + 1, 2 * i + 2, 2 * i + 3, 2 * i + 4
        for conn in ((a, c), (b, d), (a, d), (c, d)):
            k += 1
            els.append((k, conn, 1.0, 1.0, plastic))
    bounds = [(l, (0, 0, 0) if l <= 2 else (1, 0, 1)) for l, _ in nodes]
    return nodes, els, bounds, list(forces or [(len(nodes), (0.0, 0.0, -1.0))])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


def run(m):
    with quiet() as s:
        m.build()
        m.run()
    return s.getvalue()


def internal(defn, U, state):
    "-> nodal forces and the material state after these displacements"
    nodes, els = sorted(defn[0]), defn[1]
    pos = {l: i for i, (l, _) in enumerate(nodes)}
    X = np.array([c for _, c in nodes])
    r, new, S = np.zeros_like(X), [], []
    for k, e in enumerate(els):
        a, b = pos[e[1][0]], pos[e[1][1]]
        L = np.linalg.norm(X[b] - X[a])
        d = X[b] + U[b] - X[a] - U[a]
        l = np.linalg.norm(d)
        eps, E = l / L - 1, e[2]
        sy, ep = state[k]
        s = E * (eps - ep)
        if len(e) > 4 and e[4]:
            H = e[4][0]
            f = abs(s) - sy
            if f > 0:
                g = f / (E + H)
                ep, sy = ep + g * np.sign(s), sy + H * g
                s = s - E * g * np.sign(s)
        new.append((sy, ep))
        S.append(s)
        r[a] -= s * e[3] * d / l
        r[b] += s * e[3] * d / l
    return r, new, np.array(S)


def virgin(defn):
    return [((e[4][1] if len(e) > 4 and e[4] else np.inf), 0.0) for e in defn[1]]


def residuals(defn, m, nsteps=1):
    "force residual of every recorded increment at the free degrees of freedom"
    nodes = sorted(defn[0])
    pos = {l: i for i, (l, _) in enumerate(nodes)}
    F = np.zeros((len(nodes), 3 * nsteps))
    for l, f in defn[3]:
        F[pos[l]] = f
    free = np.ones((len(nodes), 3))
    for l, b in defn[2]:
        free[pos[l]] = b
    state, out, held, step, lpf = virgin(defn), [], np.zeros((len(nodes), 3)), 1, 0.0
    for R in m.Results.R[1:]:
        while R.step > step:
            held = held + lpf * F[:, 3 * step - 3 : 3 * step]
            step, lpf = step + 1, 0.0
        r, state, _ = internal(defn, R.U, state)
        lpf = R.lpf
        g = (held + lpf * F[:, 3 * step - 3 : 3 * step] - r)[free == 1]
        out.append(np.linalg.norm(g))
    return out


def public(m):
    "the recorded results as bytes"
    out = []
    for R in m.Results.R:
        for k in ("U", "U0", "r", "K", "stretch", "element_force", "element_stress", "state_v"):
            v = getattr(R, k)
            out.append(b"-" if v is None else (np.asarray(v, float) + 0.0).tobytes())
        out.append(repr((float(R.lpf), int(R.step or 0))).encode())
    return out


def fail(text):
    print("FAIL:", text)
    sys.exit(1)
