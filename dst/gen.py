"""Generated trusses, step plans, settings and fault plans (all plain data)."""
import math
import random


def rng_for(*key):
    return random.Random(":".join(str(k) for k in key))


def r4(x):
    return float(f"{x:.5g}")


def pick(rng, pairs):
    items, weights = zip(*pairs)
    return rng.choices(items, weights)[0]


def labels(rng, n, kind=None):
    kind = kind or pick(
        rng, [("plain", 4), ("gap", 2), ("shuffle", 3), ("large", 1), ("zero", 1), ("tens", 1), ("negative", 1)]
    )
    if kind == "plain":
        return list(range(1, n + 1))
    if kind == "zero":
        return list(range(n))
    if kind == "tens":
        return [10 * (i + 1) for i in range(n)]
    if kind == "negative":
        out = [i - n // 2 for i in range(n)]
        rng.shuffle(out)
        return out
    if kind == "gap":
        out = sorted(rng.sample(range(1, 5 * n + 5), n))
        return out
    if kind == "large":
        base = rng.choice([250, 1000, 100000])
        out = [base + rng.randrange(1, 50) + 50 * i for i in range(n)]
        rng.shuffle(out)
        return out
    out = list(range(1, n + 1))
    rng.shuffle(out)
    return out


def geometry(rng, family):
    """-> coords, bounds per node (1 free), bars, load directions (node, unit
    vector), characteristic length"""
    u = rng.uniform
    if family == "bar":
        n = rng.choice([1, 1, 2, 2, 3, 4])
        xs = [0.0]
        for _ in range(n):
            xs.append(xs[-1] + u(0.5, 1.5))
        d = rng.choice([0, 1, 2])
        coords, free = [], []
        for i, x in enumerate(xs):
            c = [0.0] * 3
            c[d] = x
            coords.append(c)
            f = [0] * 3
            f[d] = 1 if i else 0
            free.append(f)
        if n > 1 and rng.random() < 0.25:
            free[-1] = [0, 0, 0]
        bars = [(i, i + 1) for i in range(n)]
        e = [0.0] * 3
        e[d] = 1.0
        loads = [(i, e) for i in range(1, n + 1)]
        return coords, free, bars, loads, 1.0
    if family == "twobar":
        h = u(0.1, 1.0)
        w = u(0.8, 1.3)
        off = rng.choice([0.0, 0.0, u(-0.1, 0.1)])
        coords = [[0.0, 0.0, 0.0], [w + off, 0.0, h], [2 * w, 0.0, 0.0]]
        free = [[0, 0, 0], [1, 0, 1], [0, 0, 0]]
        bars = [(0, 1), (1, 2)]
        loads = [(1, [0.0, 0.0, -1.0]), (1, [r4(u(-0.2, 0.2)), 0.0, -1.0])]
        return coords, free, bars, loads, h
    if family == "tripod":
        n = rng.choice([3, 3, 4])
        h = u(0.2, 1.0)
        ang0 = u(0, 6.28)
        coords, free = [], []
        for k in range(n):
            a = ang0 + 2 * math.pi * (k + u(-0.15, 0.15)) / n
            rad = u(0.8, 1.2)
            coords.append([rad * math.cos(a), rad * math.sin(a), 0.0])
            free.append([0, 0, 0])
        coords.append([0.0, 0.0, h])
        free.append([1, 1, 1])
        bars = [(k, n) for k in range(n)]
        loads = [(n, [0.0, 0.0, -1.0]), (n, [r4(u(-1, 1)), r4(u(-1, 1)), r4(u(-1, 1))])]
        return coords, free, bars, loads, h
    if family == "planar":
        bays = rng.choice([1, 2, 2, 3]) if rng.random() < 0.93 else rng.choice([5, 7])
        h = u(0.4, 1.0)
        coords, free, bars = [], [], []
        for i in range(bays + 1):
            for z in (0.0, h):
                coords.append([float(i), 0.0, z + (u(-0.05, 0.05) if i else 0.0)])
                free.append([0, 0, 0] if i == 0 else [1, 0, 1])
        for i in range(bays):
            a, b, c, d = 2 * i, 2 * i + 1, 2 * i + 2, 2 * i + 3
            bars += [(a, c), (b, d), (c, d), (a, d)]
            if rng.random() < 0.4:
                bars.append((b, c))
        m = len(coords)
        loads = [(m - 1, [0.0, 0.0, -1.0]), (m - 2, [0.3, 0.0, -1.0]), (m - 1, [1.0, 0.0, 0.0])]
        return coords, free, bars, loads, h
    if family == "stack":
        h1, h2 = u(0.4, 0.8), u(0.4, 0.8)
        coords, free, bars = [], [], []
        for k in range(3):
            a = 2 * math.pi * k / 3
            coords.append([math.cos(a), math.sin(a), 0.0])
            free.append([0, 0, 0])
        for k in range(3):
            a = 2 * math.pi * k / 3 + u(-0.1, 0.1)
            coords.append([0.6 * math.cos(a), 0.6 * math.sin(a), h1])
            free.append([1, 1, 1])
        coords.append([0.0, 0.0, h1 + h2])
        free.append([1, 1, 1])
        for k in range(3):
            bars += [(k, 3 + k), (k, 3 + (k + 1) % 3), (3 + k, 3 + (k + 1) % 3), (3 + k, 6)]
        loads = [(6, [0.0, 0.0, -1.0]), (6, [r4(u(-0.3, 0.3)), r4(u(-0.3, 0.3)), -1.0])]
        return coords, free, bars, loads, h2
    if family == "dome":
        n = rng.choice([4, 5, 6])
        h = u(0.15, 0.4)
        coords, free, bars = [[0.0, 0.0, h]], [[1, 1, 1]], []
        for k in range(n):
            a = 2 * math.pi * k / n
            coords.append([math.cos(a), math.sin(a), 0.0])
            free.append([0, 0, 0] if k % 2 else [1, 1, 0] if rng.random() < 0.2 else [0, 0, 0])
            bars.append((0, k + 1))
        for k in range(n):
            bars.append((k + 1, (k + 1) % n + 1))
        loads = [(0, [0.0, 0.0, -1.0]), (0, [0.1, -0.05, -1.0])]
        return coords, free, bars, loads, h
    if family == "mast":
        n = rng.choice([2, 2, 3])
        h = u(0.6, 1.0)
        coords, free, bars = [], [], []
        for i in range(n + 1):
            for k in range(3):
                a = 2 * math.pi * k / 3 + u(-0.05, 0.05)
                coords.append([0.6 * math.cos(a), 0.6 * math.sin(a), i * h])
                free.append([1, 1, 1] if i else [0, 0, 0])
        for i in range(n):
            for k in range(3):
                a, b = 3 * i + k, 3 * i + (k + 1) % 3
                bars += [(a, a + 3), (a, b + 3), (a + 3, b + 3)]
        if rng.random() < 0.5:  # the free end first
            m = len(coords) - 1
            coords, free = coords[::-1], free[::-1]
            bars = [(m - a, m - b) for a, b in bars]
            top = [0, 1, 2]
        else:
            top = [len(coords) - 3 + k for k in range(3)]
        loads = [(top[0], [1.0, 0.0, 0.0]), (top[1], [r4(u(-0.3, 0.3)), 0.2, -1.0]), (top[2], [0.0, 0.3, -1.0])]
        return coords, free, bars, loads, h
    raise ValueError(family)


FAMILIES = [("bar", 8), ("twobar", 10), ("tripod", 8), ("planar", 4), ("stack", 2), ("dome", 2), ("mast", 1)]


def truss(rng, family=None, plastic=None, nsteps=1, signs=None, simple=False, label_kind=None):
    family = family or pick(rng, FAMILIES)
    coords, free, bars, loads, h = geometry(rng, family)
    if not simple and rng.random() < 0.08:  # two elements between the same nodes
        a, b = rng.choice(bars)
        bars = bars + [(b, a) if rng.random() < 0.5 else (a, b)]
    n, ne = len(coords), len(bars)
    nl = labels(rng, n, label_kind)
    el = labels(rng, ne, label_kind)
    if plastic is None:
        plastic = pick(rng, [("none", 3), ("all", 2), ("mixed", 2)])
    E0 = rng.choice([1.0, 1.0, 10.0, 100.0, 210.0])
    sy = r4(E0 * rng.choice([0.005, 0.02, 0.05, 0.1]))
    kh = r4(E0 * (rng.choice([0.02, 0.1, 0.3, 1.0]) if rng.random() < 0.93 else rng.choice([0.0, 0.003, 3.0])))
    same = rng.random() < 0.4 or simple
    wide = plastic != "none" or rng.random() < 0.3
    elements = []
    for i, (a, c) in enumerate(bars):
        pl = plastic == "all" or (plastic == "mixed" and (rng.random() < 0.5))
        if plastic == "mixed" and i == 0:
            pl = rng.random() < 0.7
        E = E0 if same else r4(E0 * rng.uniform(0.5, 2))
        A = 1.0 if same else r4(rng.uniform(0.5, 2))
        if pl:
            mp = [E, kh if same else r4(kh * rng.uniform(0.5, 2)), sy if same else r4(sy * rng.uniform(0.5, 2))]
        elif wide:
            mp = [E, 0.0 if rng.random() < 0.5 else kh, 0.0 if rng.random() < 0.5 else sy]
        else:
            mp = [E]
        if rng.random() < 0.3:
            a, c = c, a
        elements.append([el[i], [nl[a], nl[c]], 2 if pl else 1, mp, [A]])
    nodes = [[nl[i], [r4(x) for x in coords[i]]] for i in range(n)]
    bounds = []
    for i in range(n):
        if all(free[i]) and rng.random() < 0.6:
            continue  # leave the default
        bounds.append([nl[i], free[i]])
    ea = E0
    if family in ("twobar", "dome"):
        fmag = ea * h**3 * rng.choice([0.3, 1.0, 3.0])
    elif family == "tripod":
        fmag = ea * h * rng.choice([0.05, 0.3, 1.0])
    else:
        fmag = ea * rng.choice([0.01, 0.05, 0.2])
    per_node = {}
    for s in range(nsteps):
        node, d = rng.choice(loads) if not simple else loads[0]
        sg = (signs[s] if signs else rng.choice([1, 1, -1])) if nsteps > 1 else 1
        m = fmag * (rng.uniform(0.5, 1.5) if not simple else 1.0)
        f = per_node.setdefault(node, [0.0] * (3 * nsteps))
        for k in range(3):
            f[3 * s + k] += r4(sg * m * d[k])
        if rng.random() < 0.25 and not simple:  # a load on a support as well
            other = rng.randrange(n)
            g = per_node.setdefault(other, [0.0] * (3 * nsteps))
            for k in range(3):
                if not free[other][k]:
                    g[3 * s + k] += r4(rng.uniform(-1, 1) * m)
    forces = [[nl[i], [r4(x) for x in f]] for i, f in per_node.items()]
    for lst in (nodes, elements, bounds, forces):
        if rng.random() < 0.5:
            rng.shuffle(lst)
    spec = dict(nodes=nodes, elements=elements, bounds=bounds, forces=forces, settings={})
    spec["family"] = family
    spec["h"] = r4(h)
    return spec


def ndof1(spec):
    free = {l: v for l, v in spec["bounds"]}
    return sum(sum(free.get(l, [1, 1, 1])) for l, _ in spec["nodes"])


def settings(rng, spec, nsteps=1, incs=None, stepcontrol=None, fixed=None):
    h = min(1.0, spec["h"])
    s = {}
    s["nsteps"] = nsteps
    s["du"] = r4(h * rng.choice([0.02, 0.05, 0.1, 0.3, 1.0]))
    s["dlpf"] = r4(rng.choice([0.005, 0.02, 0.05, 0.1, 0.3, 1.0]))
    s["stepcontrol"] = (rng.random() < 0.5) if stepcontrol is None else stepcontrol
    incs = incs or (rng.choice([2, 3, 5, 8, 12]) if spec["family"] == "mast" or rng.random() < 0.98 else rng.choice([25, 30, 40]))
    if nsteps > 1 and rng.random() < 0.5:
        s["incs"] = [0 if rng.random() < 0.04 else rng.choice([1, 2, 3, incs]) for _ in range(nsteps)]
    else:
        s["incs"] = incs
    if rng.random() < 0.25:
        s["dxtol"] = rng.choice([1.0001, 1.05, 1.25, 2.0])
    if rng.random() < 0.3:
        s["cycl"] = rng.choice([2, 3, 6, 8])
    if rng.random() < 0.3:
        s["nfev"] = rng.choice([4, 6, 12])
    if rng.random() < 0.3:
        s["ftol"] = rng.choice([4, 6, 9])
    if rng.random() < 0.3:
        s["xtol"] = rng.choice([2, 4, 6, 9])
    if s["stepcontrol"]:
        if rng.random() < 0.4:
            s["reduce"] = rng.choice([2, 4.0, 5, 10])
        if rng.random() < 0.4:
            s["increase"] = rng.choice([0, 0.25, 1.0, 2.0])
        if rng.random() < 0.4:
            s["maxfac"] = rng.choice([1, 1.5, 3, 5])
        if rng.random() < 0.4:
            s["minfac"] = rng.choice([1e-3, 0.01, 0.1, 0.5])
    if rng.random() < 0.15:
        s["j_pre"] = False
    elif rng.random() < 0.12:  # the linearized solution is the solution of many increments
        s["ftol"], s["xtol"] = rng.choice([3, 4, 5]), rng.choice([-2, 0, 0, 1])
        fine = rng.choice([1, 1, 0.1])
        s["du"], s["dlpf"] = r4(s["du"] * fine), r4(s["dlpf"] * fine)
    if fixed or (fixed is None and rng.random() < 0.2):
        n = ndof1(spec)
        s["j_fixed"] = True
        s["j0"] = rng.choice([n + 1, n + 1, rng.randrange(1, n + 1)]) * rng.choice([1, 1, -1])
    if rng.random() < 0.35:
        n = ndof1(spec)
        lim = lambda: [  # noqa: E731
            rng.choice([0, rng.randrange(1, n + 1)]),
            None,
        ]

        def one():
            c, _ = lim()
            ref = s["dlpf"] if c == 0 else s["du"]
            return [c, r4(ref * rng.choice([0, 0.5, 1.5, 1.5, 2.5, 2.5, 3.5, 3.5, 6.5, 6.5]))]

        if nsteps > 1 and rng.random() < 0.6:
            s["xlimit"] = [one() if rng.random() < 0.7 else [0, None] for _ in range(nsteps)]
        else:
            s["xlimit"] = one()
    for k, v in DEFAULTS.items():  # leave it to the default
        if s.get(k) == v and rng.random() < 0.3:
            del s[k]
    return s


DEFAULTS = dict(nsteps=1, stepcontrol=False)

KINDS = [
    ("stall", 5),
    ("scale", 2),
    ("negate", 2),
    ("kick", 4),
    ("kick1", 2),
    ("nan", 2),
    ("inf", 1),
    ("nan1", 1),
]


def fault(rng, start, count, kinds=None, size=1.0):
    k = pick(rng, kinds or KINDS)
    par = None
    if k == "scale":
        par = rng.choice([0.1, 0.5, 0.9, 1.1, 2.0, 10.0])
    elif k == "kick":
        par = [r4(size * rng.choice([1e-6, 1e-3, 0.05, 0.3, 1.0, 10.0])), rng.randrange(10**6)]
    elif k == "kick1":
        par = [r4(size * rng.choice([-1, 1]) * rng.choice([0.01, 0.1, 1.0])), rng.randrange(12)]
    elif k == "nan1":
        par = rng.randrange(12)
    return [start, count, k, par] if par is not None else [start, count, k]


def horizon(rng, spec, base):
    "number of solves within which faults begin: sometimes the whole run"
    incs = spec["settings"]["incs"]
    total = sum(incs) if isinstance(incs, list) else incs * spec["settings"].get("nsteps", 1)
    return max(base, 3 * total) if rng.random() < 0.4 else base


def faults(rng, horizon, spec=None, most=4, kinds=None):
    n = rng.choice([0, 1, 1, 2, 2, 3, most])
    size = spec["h"] if spec else 1.0
    out = []
    for _ in range(n):
        start = int(rng.random() ** 1.3 * horizon)
        count = pick(rng, [(1, 4), (2, 2), (3, 1), (8, 3), (16, 2), (40, 1)])
        out.append(fault(rng, start, count, kinds, size))
    out.sort(key=lambda f: f[0])
    return out


def scenario(rng, max_steps=8, plastic=None, family=None, stepcontrol=None, incs=None, fixed=None,
             simple=False, units=True):
    nsteps = pick(rng, [(1, 8), (2, 6), (3, 4), (4, 2), (5, 1), (6, 1), (8, 1)])
    nsteps = min(nsteps, max_steps)
    if nsteps > 5 and incs is None:
        incs = rng.choice([1, 2, 3])
    signs = None
    if nsteps > 1:
        kind = rng.choice(["alt", "random", "same", "unload"])
        if kind == "alt":
            signs = [(-1) ** s for s in range(nsteps)]
        elif kind == "same":
            signs = [1] * nsteps
        elif kind == "unload":
            signs = [1] + [-1] * (nsteps - 1)
    spec = truss(rng, family=family, plastic=plastic, nsteps=nsteps, signs=signs, simple=simple)
    spec["settings"] = settings(rng, spec, nsteps=nsteps, incs=incs, stepcontrol=stepcontrol, fixed=fixed)
    spec["log"] = pick(rng, [(0, 6), (1, 2), (2, 2), (3, 1)])
    if units and rng.random() < 0.1:
        rescale(spec, *rng.choice(UNITS))
    else:
        if units and rng.random() < 0.06:
            whole(rng, spec)
        if nsteps > 1 and rng.random() < 0.06:  # a step that adds no load
            s = rng.randrange(nsteps)
            for _, f in spec["forces"]:
                f[3 * s : 3 * s + 3] = [0.0] * 3
    return spec


def whole(rng, spec):
    """the same kind of truss defined with whole numbers only (as a user types
    them: 1, not 1.0)"""
    f = 1000 * rng.choice([1, 5])
    up = lambda x: int(round(x)) or int(math.copysign(1, x)) if x else 0  # noqa: E731
    spec["nodes"] = [[l, [up(x * f) for x in c]] for l, c in spec["nodes"]]
    spec["elements"] = [
        [l, conn, mt, [up(x * 1000) for x in mp], [up(a * 10) for a in gp]] for l, conn, mt, mp, gp in spec["elements"]
    ]
    spec["forces"] = [[l, [up(x * 10000) for x in v]] for l, v in spec["forces"]]
    spec["h"] = r4(spec["h"] * f)
    s = spec["settings"]
    s["du"] = up(s["du"] * f)
    one = lambda x: [x[0], up(x[1] * f) if x[0] and x[1] is not None else x[1]]  # noqa: E731
    lim = s.get("xlimit")
    if lim:
        s["xlimit"] = [one(x) for x in lim] if isinstance(lim[0], list) else one(lim)
    s["ftol"] = s.get("ftol", 8) - 4
    spec["units"] = [f, 1000.0, 10.0]


# factors for lengths, stresses and areas
UNITS = [(1.0, 1e4, 1.0), (1.0, 1e-3, 1.0), (1e3, 1.0, 1.0), (1e-2, 1e3, 1e-4), (10.0, 1e5, 1e-4), (1.0, 1.0, 1e-3)]


def rescale(spec, length, stress, area):
    "the same truss in other units"
    spec["nodes"] = [[l, [r4(x * length) for x in c]] for l, c in spec["nodes"]]
    spec["elements"] = [
        [l, conn, mt, [r4(x * stress) for x in mp], [r4(a * area) for a in gp]] for l, conn, mt, mp, gp in spec["elements"]
    ]
    force = stress * area
    spec["forces"] = [[l, [r4(x * force) for x in f]] for l, f in spec["forces"]]
    spec["h"] = r4(spec["h"] * length)
    s = spec["settings"]
    s["du"] = r4(s["du"] * length)
    lim = s.get("xlimit")
    if lim:
        one = lambda x: [x[0], r4(x[1] * length) if x[0] and x[1] is not None else x[1]]  # noqa: E731
        s["xlimit"] = [one(x) for x in lim] if isinstance(lim[0], list) else one(lim)
    s["ftol"] = s.get("ftol", 8) - round(math.log10(force))
    spec["units"] = [length, stress, area]
