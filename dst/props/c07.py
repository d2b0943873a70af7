"""C07: the verdict of the Newton root finder."""
import sys

import numpy as np

from .. import gen as G
from .. import model
from .. import world as W

ID = "C07"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 250000
COMPONENTS = {
    "real": ["trusspy.solvers.newton", "scipy sparse solve (result passed on or disturbed)"],
    "stub": ["residual and derivative callbacks (generated, with faults)", "standard output (recording stream)"],
}
ASSUMPTIONS = [
    "at least one iteration is allowed (nfev >= 1)",
    "the k-th iterate is the last point at which the residual is evaluated before the (k+1)-th linear solve",
    "a norm within 1e-9 (relative) of its tolerance decides nothing",
]
STATES = "distinct (problem, disturbance kinds fired, which of the two criteria held per iteration, verdict)"
RULE = (
    "three root finding calls per case from (VERIF_SEED, C07, i): problem, start, tolerances, iteration limit, "
    "callback faults (perturbed, non-finite or raising from a chosen iteration on) and linear solver faults. "
    "Non-trivial: a fault fired"
)
PROBES = (
    "probe.success", "probe.exhausted", "probe.only_f", "probe.only_x", "probe.raised_f", "probe.raised_df",
    "probe.raised_solver", "probe.nan", "probe.first_of_many",
)

_EXC = (
    ValueError, MemoryError, KeyboardInterrupt, ZeroDivisionError, RuntimeError, FloatingPointError, OverflowError,
    ArithmeticError, TypeError, OSError, IndexError, KeyError, AttributeError, AssertionError, NotImplementedError,
)
EXCS = [e.__name__ for e in _EXC] + ["LinAlgError"]


def gen(rng, i, tier):
    return dict(calls=[gen_call(rng) for _ in range(3)])


def gen_call(rng):
    kind = rng.choice(["cubic", "cubic", "linear", "double", "flat", "steep", "atan", "exp", "sqrt"])
    n = rng.choice([1, 1, 2, 3, 5])
    p = dict(
        kind=kind, n=n, a=G.r4(rng.uniform(0.3, 3)), c=[G.r4(rng.uniform(-2, 2)) for _ in range(n)],
        x0=[G.r4(rng.uniform(-2, 2)) for _ in range(n)], eps=G.r4(rng.choice([0, 0, 0.01, 0.1])),
        form=rng.choice(["dense", "dense", "csr", "row"]), buffer=rng.random() < 0.25,
        nfev=rng.choice([1, 1, 2, 3, 4, 6, 8, 8, 12, 30]),
        ftol=rng.choice([1e-2, 1e-4, 1e-8, 1e-8, 1e-12, 1e3, 0.0]),
        xtol=rng.choice([1e-2, 1e-4, 1e-8, 1e-8, 1e-12, 1e3, 0.0]),
        verbose=rng.choice([0, 0, 1, 2]),
        args=rng.random() < 0.5,
        faults=[], fcb=[], exc=None,
    )
    how = rng.random()
    if how < 0.12:  # the documented defaults: 8 iterations, 8 digits
        p.update(how="defaults", nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, args=False)
    elif how < 0.3:
        p.update(how="keywords", args=False)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        p["faults"].append(G.fault(rng, rng.randrange(0, 8), rng.choice([1, 1, 2, 3, 40]), size=1.0))
    if rng.random() < 0.15:  # a nearly singular system: corrections of any size
        big = 10.0 ** rng.choice([3, 5, 8, 12, 20, 160, -9, -13])
        f = ["scale", big] if rng.random() < 0.5 else ["kick", [big, rng.randrange(1000)]]
        p["faults"].insert(0, [rng.randrange(0, 4), rng.choice([1, 1, 2, 5]), *f])
    if rng.random() < 0.1:  # unknowns of very different size
        p["x0"] = [G.r4(v * 10.0 ** rng.choice([-6, 0, 4, 7])) for v in p["x0"]]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        # [first epoch, epochs, kind, size]
        p["fcb"].append([
            rng.randrange(0, 7), rng.choice([1, 1, 2, 30]), rng.choice(["add", "add", "nan", "inf", "zero"]),
            rng.choice([1e-10, 1e-6, 1e-3, 1.0]),
        ])
    if rng.random() < 0.3:
        p["exc"] = [rng.choice(["f", "df", "solve"]), rng.randrange(0, 6), rng.choice(EXCS)]
    return p


def make_exc(name):
    if name == "LinAlgError":
        return np.linalg.LinAlgError("injected")
    return {e.__name__: e for e in _EXC}[name]("injected")


def functions(p):
    a, c, n, eps, kind = p["a"], np.array(p["c"], float), p["n"], p["eps"], p["kind"]
    one = np.ones((n, n)) - np.eye(n)
    if kind == "cubic":
        g, dg = lambda x: a * x**3 - c, lambda x: 3 * a * x**2
    elif kind == "linear":
        g, dg = lambda x: a * x - c, lambda x: a + 0 * x
    elif kind == "double":
        g, dg = lambda x: a * (x - c) ** 2, lambda x: 2 * a * (x - c)
    elif kind == "flat":
        g, dg = lambda x: 1e-6 * a * (x - c) ** 3, lambda x: 3e-6 * a * (x - c) ** 2
    elif kind == "steep":
        g, dg = lambda x: 1e6 * (x**2 - abs(c)), lambda x: 2e6 * x
    elif kind == "atan":
        g, dg = lambda x: np.arctan(x - c), lambda x: 1 / (1 + (x - c) ** 2)
    elif kind == "exp":
        g, dg = lambda x: np.exp(a * x) - abs(c) - 0.1, lambda x: a * np.exp(a * x)
    else:
        g, dg = lambda x: np.sqrt(x + 2) - abs(c), lambda x: 0.5 / np.sqrt(x + 2)
    return (lambda x: g(x) + eps * (one @ x)), (lambda x: np.diag(dg(x)) + eps * one)


class Probe:
    "callbacks that record where they are called"

    def __init__(self, p, w):
        self.p, self.w = p, w
        self.g, self.dg = functions(p)
        self.epoch = {}  # number of solves done -> (x, f)
        self.raised = None
        self.buf = np.empty(p["n"])

    def hit(self, where):
        e = self.p["exc"]
        if e and e[0] == where and self.w.nsolve >= e[1]:
            if self.raised is None:
                self.raised = make_exc(e[2])
            self.w.stats["fault.raise_" + where] += 1
            self.w.ev("raise", where, self.w.nsolve)
            raise self.raised

    def check_args(self, args):
        if args != (("x", 3) if self.p["args"] else ()):
            raise AssertionError(f"extra arguments {args!r}")

    def f(self, x, *args):
        self.check_args(args)
        self.hit("f")
        k = self.w.nsolve
        x = np.array(x, float).reshape(-1)
        y = self.g(x)
        for start, count, kind, size in self.p["fcb"]:
            if start <= k < start + count:
                self.w.stats["fault.cb_" + kind] += 1
                if kind == "add":
                    y = y + size * W.noise(f"{size}:{k}", len(y))
                elif kind == "zero":
                    y = 0 * y
                else:
                    y = y.copy()
                    y[k % len(y)] = np.nan if kind == "nan" else np.inf
        self.epoch[k] = (x.copy(), y.copy())
        if self.p["buffer"]:
            self.buf[:] = y
            return self.buf
        return y

    def df(self, x, *args):
        self.check_args(args)
        self.hit("df")
        from scipy.sparse import csr_matrix

        K = self.dg(np.array(x, float).reshape(-1))
        if self.p["form"] == "csr":
            return csr_matrix(K)
        if self.p["form"] == "row" and self.p["n"] == 1:
            return K.reshape(-1)
        return K


def run(case, rep):
    for p in case["calls"]:
        one(p, rep)


def one(p, rep):
    from trusspy.solvers import newton

    faults = list(p["faults"])
    w = W.World(faults, budget=p["nfev"] + 60)
    pr = Probe(p, w)
    real_on = w.on_solve

    def on_solve(real, b):
        try:
            pr.hit("solve")
        except BaseException:
            w.nsolve += 1
            raise
        return real_on(real, b)

    w.on_solve = on_solve
    old, sys.stdout = sys.stdout, W.Out(w)
    exc = out = None
    x_in = np.array(p["x0"], float)
    try:
        with W.active(w):
            try:
                args = ("x", 3) if p["args"] else ()
                if p.get("how") == "defaults":
                    out = newton(pr.f, pr.df, x_in)
                elif p.get("how") == "keywords":
                    kw = {k: p[k] for k in ("xtol", "ftol", "verbose", "nfev")}
                    out = newton(pr.f, pr.df, x_in, **kw)
                else:
                    out = newton(pr.f, pr.df, x_in, p["nfev"], p["ftol"], p["xtol"], p["verbose"], *args)
            except W.SimBudget as e:
                exc = e
            except (Exception, KeyboardInterrupt) as e:
                exc = e
    finally:
        sys.stdout = old
    rep.world(w)
    if x_in.tolist() != np.array(p["x0"], float).tolist():
        rep.bad("start-changed", f"the starting vector of the caller {p['x0']} became {x_in.tolist()}")
        return
    if isinstance(exc, W.SimBudget):
        rep.bad("iterations", f"more than {p['nfev'] + 60} linear solves, {p['nfev']} allowed")
        return
    if pr.raised is not None:
        where = p["exc"][0]
        rep.stats["probe.raised_" + {"solve": "solver"}.get(where, where)] += 1
        rep.part("raised", where)
        rep.key(p["kind"], "raised", where, p["exc"][2])
        if exc is None:
            rep.bad("swallowed", f"a {type(pr.raised).__name__} raised in {where} after {p['exc'][1]} solves did not reach the caller")
        elif exc is not pr.raised and exc.__cause__ is not pr.raised and exc.__context__ is not pr.raised:
            rep.bad("other-exception", f"{type(pr.raised).__name__} raised in {where} arrived as {type(exc).__name__}: {exc}")
        elif exc is not pr.raised and not isinstance(exc, type(pr.raised)):
            rep.bad("other-exception", f"{type(pr.raised).__name__} raised in {where} arrived as {type(exc).__name__}: {exc}")
        return
    if exc is not None:
        if w.stats["real_solver_error"]:
            rep.part("solver", type(exc).__name__)
            return
        rep.bad("exception", f"{type(exc).__name__}: {exc}")
        return
    if not isinstance(out, (tuple, list)) or len(out) != 5:
        rep.bad("no-verdict", f"newton returned {out!r:.80} instead of x, success, n, f_norm, x_norm")
        return
    judge(p, pr, w, out, rep)


def close(a, b, atol=0.0, rtol=1e-9):
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def below(v, tol, atol):
    "True, False or None if it cannot be told"
    if np.isnan(v):
        return False
    if abs(v - tol) <= atol + 1e-9 * tol and tol > 0:
        return None
    return bool(v < tol)


def judge(p, pr, w, out, rep):
    x, success, n, f_norm, x_norm = out
    x = np.asarray(x, float).reshape(-1)
    # what a caller unpacks
    rep.part(model.b(x), bool(success), int(n), model.b(f_norm), model.b(x_norm))
    seen = sorted(pr.epoch)
    if w.nsolve == 0 or seen != list(range(w.nsolve + 1)):
        rep.bad("not-evaluated", f"{w.nsolve} linear solves, residual evaluated between solves {seen}")
        return
    pts = [pr.epoch[k] for k in seen]
    if n != w.nsolve:
        rep.bad("count", f"{n} iterations reported, {w.nsolve} done")
        return
    last_x, last_f = pts[-1]
    size = max(1.0, np.nan_to_num(np.abs(last_x), nan=0, posinf=0).max())
    if not np.array_equal(x, last_x, equal_nan=True):
        rep.bad("point", f"returned point {x} is not the last one evaluated {last_x}")
        return
    fn = float(np.linalg.norm(last_f))
    if not close(f_norm, fn):
        rep.bad("f-norm", f"reported residual norm {f_norm!r}, at the returned point it is {fn!r}")
        return
    verdicts = []
    for k in range(1, len(pts)):
        d = float(np.linalg.norm(pts[k][0] - pts[k - 1][0]))
        fk = float(np.linalg.norm(pts[k][1]))
        cancel = 4e-16 * np.sqrt(len(x)) * max(
            size, np.nan_to_num(np.abs(np.array([pts[k][0], pts[k - 1][0]])), nan=0, posinf=0).max()
        )
        verdicts.append((below(fk, p["ftol"], 0.0), below(d, p["xtol"], cancel), d, cancel))
    d, cancel = verdicts[-1][2:]
    if not close(x_norm, d, cancel) and np.isfinite(d):
        rep.bad("x-norm", f"reported correction norm {x_norm!r}, the last correction has {d!r}")
        return
    if not np.isfinite(d) and np.isfinite(x_norm) and np.isfinite(last_x).all():
        rep.bad("x-norm", f"reported correction norm {x_norm!r}, the last correction has {d!r}")
        return
    both = [False if (a is False or c is False) else (None if (a is None or c is None) else True)
            for a, c, _, _ in verdicts]
    pattern = "".join(
        {True: "S", None: "?"}.get(v, "f" if t[0] else "x" if t[1] else "-") for v, t in zip(both, verdicts)
    )
    kinds = sorted(k for k in w.stats if k.startswith("fault"))
    rep.key(p["kind"], pattern[-6:], bool(success), *kinds)
    if "f" in pattern:
        rep.stats["probe.only_f"] += 1
    if "x" in pattern:
        rep.stats["probe.only_x"] += 1
    if not np.isfinite(fn):
        rep.stats["probe.nan"] += 1
    early = [k + 1 for k, v in enumerate(both[:-1]) if v is True]
    if early:
        rep.bad("not-first", f"iterate {early[0]} met both tolerances, yet the iteration went on to {n}")
        return
    if success:
        rep.stats["probe.success"] += 1
        if n < p["nfev"]:
            rep.stats["probe.first_of_many"] += 1
        if both[-1] is False:
            rep.bad(
                "false-success",
                f"success reported with residual {fn:.3e} (tolerance {p['ftol']:g}) and last correction "
                f"{d:.3e} (tolerance {p['xtol']:g})",
            )
    else:
        if both[-1] is True:
            rep.bad(
                "missed-success",
                f"no success reported with residual {fn:.3e} (tolerance {p['ftol']:g}) and last correction "
                f"{d:.3e} (tolerance {p['xtol']:g})",
            )
        elif n != p["nfev"]:
            rep.bad("early-end", f"gave up after {n} of {p['nfev']} iterations")
        else:
            rep.stats["probe.exhausted"] += 1
    if n > p["nfev"]:
        rep.bad("iterations", f"{n} iterations, {p['nfev']} allowed")


def shrink(case):
    from ..runner import shrink_faults, shrink_list

    for c in shrink_list(case["calls"], least=1):
        yield dict(case, calls=c)
    for i, p in enumerate(case["calls"]):
        put = lambda q: dict(case, calls=case["calls"][:i] + [q] + case["calls"][i + 1 :])  # noqa: E731
        for f in shrink_faults(p["faults"]):
            yield put(dict(p, faults=f))
        for f in shrink_list(p["fcb"]):
            yield put(dict(p, fcb=f))
        if p["exc"]:
            yield put(dict(p, exc=None))
        for k, v in (("verbose", 0), ("buffer", False), ("form", "dense"), ("args", False), ("eps", 0)):
            if p[k] != v:
                yield put(dict(p, **{k: v}))
        if p["n"] > 1:
            yield put(dict(p, n=1, c=p["c"][:1], x0=p["x0"][:1]))
        if p["nfev"] > 1 and p.get("how") != "defaults":
            yield put(dict(p, nfev=p["nfev"] - 1))
