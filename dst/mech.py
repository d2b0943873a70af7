"""Independent reference mechanics: what a truss with these displacements and
this material history must feel.  Written from the definitions (nominal strain
lam - 1, nominal stress, isotropic hardening), not from the library's code."""
import numpy as np


class Ref:
    def __init__(self, spec):
        nodes = sorted((int(l), c) for l, c in spec["nodes"])
        self.labels = [l for l, _ in nodes]
        self.pos = {l: i for i, l in enumerate(self.labels)}
        self.X = np.array([c for _, c in nodes], dtype=float)
        self.n = len(nodes)
        self.free = np.ones((self.n, 3), dtype=int)
        for l, v in spec["bounds"]:
            self.free[self.pos[l]] = v
        self.dof1 = np.flatnonzero(self.free.ravel() == 1)
        self.dof0 = np.flatnonzero(self.free.ravel() == 0)
        self.nsteps = spec["settings"].get("nsteps", 1)
        width = max(len(f) for _, f in spec["forces"])
        F = np.zeros((self.n, width))
        for l, f in spec["forces"]:
            F[self.pos[l]] = f
        self.F = [F[:, 3 * s : 3 * s + 3] for s in range(width // 3)]
        els = spec["elements"]
        self.ne = len(els)
        self.a = np.array([self.pos[e[1][0]] for e in els])
        self.b = np.array([self.pos[e[1][1]] for e in els])
        self.mt = np.array([e[2] for e in els])
        self.E = np.array([e[3][0] for e in els], dtype=float)
        self.Kh = np.array([e[3][1] if e[2] == 2 else 0.0 for e in els])
        self.Sy = np.array([e[3][2] if e[2] == 2 else np.inf for e in els])
        self.A = np.array([e[4][0] for e in els], dtype=float)
        d = self.X[self.b] - self.X[self.a]
        self.L = np.sqrt((d * d).sum(1))
        self.plastic = self.mt == 2

    def virgin(self):
        "material state: yield stress, plastic strain"
        return np.array([self.Sy.copy(), np.zeros(self.ne)]).T

    def geometry(self, U):
        d = (self.X + U)[self.b] - (self.X + U)[self.a]
        l = np.sqrt((d * d).sum(1))
        return d / l[:, None], l, l / self.L

    def material(self, lam, state):
        "-> stress, tangent, new state, distance of the trial stress from yield"
        e = lam - 1
        trial = self.E * (e - state[:, 1])
        f = np.abs(trial) - state[:, 0]
        pl = self.plastic & (f > 0)
        dg = np.where(pl, f / np.where(pl, self.E + self.Kh, 1.0), 0.0)
        sgn = np.sign(trial)
        stress = trial - self.E * dg * sgn
        H = self.E * self.Kh / (self.E + self.Kh)
        tangent = np.where(pl, H, self.E)
        new = state.copy()
        new[:, 1] = state[:, 1] + dg * sgn
        new[:, 0] = np.where(self.plastic, state[:, 0] + self.Kh * dg, state[:, 0])
        gap = np.where(self.plastic, np.abs(f), np.inf)
        return stress, tangent, new, gap

    def internal(self, U, state):
        n, l, lam = self.geometry(U)
        stress, tangent, new, gap = self.material(lam, state)
        N = stress * self.A
        r = np.zeros((self.n, 3))
        np.add.at(r, self.a, -N[:, None] * n)
        np.add.at(r, self.b, N[:, None] * n)
        return dict(r=r, stress=stress, N=N, lam=lam, state=new, gap=gap, l=l, nrm=n,
                    tangent=tangent)

    def tangent(self, U, state):
        q = self.internal(U, state)
        K = np.zeros((self.n, self.n, 3, 3))
        eye = np.eye(3)
        for i in range(self.ne):
            nn = np.outer(q["nrm"][i], q["nrm"][i])
            k = q["tangent"][i] * self.A[i] / self.L[i] * nn
            k = k + q["N"][i] / q["l"][i] * (eye - nn)
            a, b = self.a[i], self.b[i]
            K[a, a] += k
            K[b, b] += k
            K[a, b] -= k
            K[b, a] -= k
        return K

    def scale(self, q):
        "of forces (rounding errors are relative to it)"
        return 1.0 + np.abs(q["N"]).sum() + sum(np.abs(F).sum() for F in self.F) + 0.01 * (self.E * self.A).sum()

    def history(self, Us):
        "integrate the material along the displacements of the recorded increments"
        state = self.virgin()
        out = []
        for U in Us:
            q = self.internal(U, state)
            q["state0"] = state
            state = q["state"]
            out.append(q)
        return out


def groups(R):
    "recorded increments (without the undeformed state) grouped by step number"
    by = {}
    for i, r in enumerate(R):
        if i:
            by.setdefault(int(r.step), []).append(i)
    return by


def loads(ref, R):
    """own bookkeeping of the applied loads: per recorded increment the pair
    (loads held from completed steps, pattern of the current step)"""
    held = np.zeros((ref.n, 3))
    out = [None]
    step = 1
    for i in range(1, len(R)):
        s = int(R[i].step)
        while step < s:
            last = [k for k in range(1, i) if int(R[k].step) == step]
            if last:
                held = held + float(R[last[-1]].lpf) * ref.F[step - 1]
            step += 1
        out.append((held.copy(), ref.F[s - 1]))
    return out
