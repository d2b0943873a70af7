"""C11: definition calls are atomic, independent of order and of numbering."""
import contextlib
import json
import sys
import types

import numpy as np

from .. import gen as G
from .. import mech, model, runner
from .. import world as W
from . import c06, path
from .c08 import definition

ID = "C11"
LEVEL = "exploration"
QUICK, THOROUGH = 3000, 90000
COMPONENTS = {
    "real": path.COMPONENTS["real"],
    "stub": path.COMPONENTS["stub"] + ["array allocation in the library (may fail)"],
}
ASSUMPTIONS = [
    "labels are unique integers; unusable data are items of a wrong shape, which numpy refuses, after the first "
    "item of their kind, and lists that break off",
    "out of memory arises where the library makes an array",
    "order of elements and unordered renumbering change the order of floating point sums: compared to 1e-6 there, "
    "bit for bit otherwise",
    "Python, numpy and scipy are trusted",
]
STATES = "distinct (mode, kinds of calls, kinds of failures, table sizes)"
RULE = (
    "call sequences with failing allocations and unusable data from (VERIF_SEED, C11, i), followed by a reference "
    "table after each call and by an analysis at the end; permuted, merged and renumbered definitions. "
    "Non-trivial: a call failed or the definition was permuted or renumbered"
)
PROBES = ("fail.alloc", "fail.bad", "fail.broken-list", "probe.block", "form.array", "form.tuple", "call.add", "call.del", "call.assign", "call.build",
          "mode.calls", "mode.order", "mode.relabel", "probe.replaced_default", "probe.deleted_last", "probe.ran")

KINDS = ("nodes", "elements", "bounds", "forces")


def gen(rng, i, tier):
    mode = ["calls", "calls", "order", "calls", "relabel"][i % 5]
    return dict(calls=g_calls, order=g_order, relabel=g_relabel)[mode](rng)


def merge(rng, lists):
    "a random merge of several sequences"
    lists = [list(x) for x in lists if x]
    out = []
    while lists:
        k = rng.randrange(len(lists))
        out.append(lists[k].pop(0))
        if not lists[k]:
            lists.pop(k)
    return out


def g_order(rng):
    spec = G.scenario(rng, max_steps=3, incs=rng.choice([2, 3, 5]))
    lists = {k: list(spec[k]) for k in KINDS}
    for k in ("nodes", "bounds", "forces"):
        rng.shuffle(lists[k])
    seq = merge(rng, [[[k, x] for x in lists[k]] for k in KINDS])
    # an increasing renumbering keeps the order of all sums
    old_n, old_e = sorted(x[0] for x in spec["nodes"]), [x[0] for x in spec["elements"]]
    step = rng.choice([1, 1, 3, 10, 1000])
    off = rng.choice([0, 0, 1, -7, 10**6])
    new_n = []
    v = off
    for _ in old_n:
        v += rng.randrange(1, step + 1)
        new_n.append(v)
    new_e = rng.sample(range(-5, 10 * len(old_e) + 50), len(old_e))
    ren = rng.random() < 0.7
    return dict(
        mode="order", spec=spec, seq=seq, faults=G.faults(rng, 30, spec),
        ren=[[[a, b] for a, b in zip(old_n, new_n)], [[a, b] for a, b in zip(old_e, new_e)]] if ren else None,
        api=rng.choice(["single", "raw", "list"]), numpy_labels=rng.random() < 0.3,
    )


def g_relabel(rng):
    spec = c06.benign(rng, False)
    s = spec["settings"]
    s["j_fixed"], s["j0"] = True, G.ndof1(spec) + 1
    s["ftol"] = 9
    s["xtol"] = 9
    n, e = [x[0] for x in spec["nodes"]], [x[0] for x in spec["elements"]]
    return dict(
        mode="relabel", spec=spec,
        ren=[[[a, b] for a, b in zip(n, rng.sample(range(-20, 300), len(n)))],
             [[a, b] for a, b in zip(e, rng.sample(range(-20, 300), len(e)))]],
        order=rng.sample(range(len(e)), len(e)), flip=[rng.random() < 0.5 for _ in e],
    )


BAD = {
    "nodes": [[0.0, 1.0], [1.0, 2.0, 3.0, 4.0], 3.0, [[0, 0, 0], [1, 1, 1]], [[0, 0], 1, 2], []],
    "bounds": [[0, 1], [1, 1, 1, 0], 1, [[1, 1], 0, 1], []],
    "forces": [[1.0], [1.0, 2.0], 5.0, [[1, 2], 3, 4], ["a", "b", "c"], {}],
    "elements": [["conn", [1]], ["conn", [1, 2, 3]], ["conn", []], ["mp", [1.0, 2.0, 3.0, 4.0, 5.0]], ["mp", []],
                 ["gp", [1.0, 2.0]], ["gp", []], ["both", 0]],
}


def bad_item(rng, kind, item):
    item = json.loads(json.dumps(item))
    b = rng.choice(BAD[kind])
    if kind == "elements":
        what, v = b
        if what == "conn":
            item[1] = v
        elif what == "mp":
            if len(v) == len(item[3]):
                v = v + [0.0]
            item[3] = v
        elif what == "gp":
            item[4] = v
        else:
            item.append("both")  # material given twice
        return item
    if kind == "forces" and isinstance(b, list) and len(b) == len(item[1]) and all(isinstance(x, (int, float)) for x in b):
        b = b + [1.0]
    item[1] = b
    return item


def g_calls(rng):
    spec = G.scenario(rng, max_steps=2, incs=rng.choice([1, 2, 3]))
    ints = rng.random() < 0.4
    if ints:
        # integer values first, fractional ones later
        for k in ("nodes", "forces"):
            x = spec[k][0]
            x[1] = [int(v) if float(v).is_integer() else v for v in x[1]]
        e = spec["elements"][0]
        e[3] = [int(v) if float(v).is_integer() else v for v in e[3]]
        e[4] = [int(v) if float(v).is_integer() else v for v in e[4]]
    width = len(spec["elements"][0][3])
    order = {k: list(spec[k]) for k in KINDS}
    for k in KINDS:
        rng.shuffle(order[k])
    steps = merge(rng, [[[k, x] for x in order[k]] for k in KINDS])
    ops = []
    have = {k: [] for k in KINDS}
    used = {k: {x[0] for x in spec[k]} | {x[0] for x in spec["nodes"]} for k in KINDS}
    api = lambda: rng.choice(["raw", "obj", "list", "kw"])  # noqa: E731
    i = 0

    def temp(k):
        l = rng.randrange(1000, 9000)
        while l in used[k]:
            l += 1
        used[k].add(l)
        proto = json.loads(json.dumps(rng.choice(spec[k])))
        proto[0] = l
        if k == "elements":
            proto[3] = (proto[3] + [0.0] * 9)[:cur["elements"]]
        return proto

    cur = dict(elements=width, forces=len(spec["forces"][0][1]))
    while i < len(steps):
        r = rng.random()
        k, item = steps[i]
        if r < 0.5:
            n = 1
            while i + n < len(steps) and steps[i + n][0] == k and rng.random() < 0.5:
                n += 1
            items = [pad(k, x, cur) for _, x in steps[i : i + n]]
            fail = None
            if rng.random() < 0.35:
                fail = ["alloc", rng.randrange(0, 6 if n == 1 else 14)]
            elif rng.random() < 0.35 and have[k]:
                at = rng.randrange(n + 1)
                fail = ["bad", at, bad_item(rng, k, pad(k, temp(k), cur))]
            elif rng.random() < 0.2:
                fail = ["broken-list", rng.randrange(n + 1)]
            a = "list" if n > 1 or (fail and fail[0] != "alloc") else api()
            if fail and fail[0] == "bad" and rng.random() < 0.6:
                ops.append(["add", k, rng.choice(["raw", "obj", "kw"]), [fail[2]], ["bad", 0, None]])
            elif fail:
                ops.append(["add", k, a, items, fail])
            # the correct call (a failing allocation may not have been reached: then it is there already)
            ops.append(["ensure", k, a, items])
            have[k] += [x[0] for x in items]
            i += n
        elif r < 0.6:  # something that comes and goes
            x = pad(k, temp(k), cur)
            ops.append(["ensure", k, api(), [x]])
            have[k].append(x[0])
            if rng.random() < 0.4:
                ops.append(["del", k, x[0], ["alloc", rng.randrange(0, 6)]])
            ops.append(["drop", k, x[0]])
            have[k].remove(x[0])
        elif r < 0.7 and have[k]:  # delete and give again
            l = rng.choice(have[k])
            x = pad(k, next(y for y in spec[k] if y[0] == l), cur)
            if rng.random() < 0.3:
                ops.append(["del", k, l, ["alloc", rng.randrange(0, 6)]])
            ops.append(["drop", k, l])
            if rng.random() < 0.25:
                ops.append(["build"])  # while it is missing
            if rng.random() < 0.3 and len(have[k]) > 1:
                ops.append(["add", k, "obj", [bad_item(rng, k, x)], ["bad", 0, None]])
            ops.append(["ensure", k, api(), [x]])
        elif r < 0.73 and have[k] and rng.random() < 0.5:  # delete all and start over, maybe with another number of values
            for l in rng.sample(have[k], len(have[k])):
                ops.append(["drop", k, l])
            if k == "forces" and rng.random() < 0.4 and have["nodes"] and have["elements"]:
                ops.append(["build"])
            if k in cur:
                cur[k] += rng.choice([0, 1, 2]) * (3 if k == "forces" else 1)
            for l in rng.sample(have[k], len(have[k])):
                ops.append(["ensure", k, api(), [pad(k, next(y for y in spec[k] if y[0] == l), cur)]])
        elif r < 0.78 and have[k]:  # delete what is not there
            # maybe a default of the last build
            l = rng.choice(have["nodes"]) if have["nodes"] and rng.random() < 0.4 else 0
            if not l or l in have[k]:
                l = rng.randrange(20000, 30000)
            ops.append(["del", k, l, None])
        elif r < 0.9 and have["elements"]:
            ls = rng.sample(have["elements"], rng.randrange(1, len(have["elements"]) + 1))
            what = rng.choice(["material", "geometry", "geometries", "geometries", "mtype", "etype"])
            if what == "material":
                mp = [G.r4(rng.uniform(1, 5))] + [G.r4(rng.uniform(0.01, 0.3)) for _ in range(rng.choice([0, 0, 2]))]
                cur["elements"] = max(cur["elements"], len(mp))
                ops.append(["assign", "material", ls if rng.random() < 0.6 else "all", mp, rng.choice([None, 1])])
            elif what == "geometry":
                ops.append(["assign", "geometry", ls if rng.random() < 0.6 else "all", [G.r4(rng.uniform(0.5, 2))]])
            elif what == "geometries":
                every = rng.random() < 0.4
                ops.append(["assign", "geometries", "all" if every else ls,
                            [[G.r4(rng.uniform(0.5, 2))] for _ in (have["elements"] if every else ls)]])
            elif what == "etype":
                ops.append(["assign", "etype", ls if rng.random() < 0.6 else "all", 1])
            else:
                ops.append(["assign", "mtype", ls, 1])
        elif r < 0.95 and all(have[k] for k in ("nodes", "elements", "forces")):
            ops.append(["build"])
    # values arrive as lists, tuples or arrays
    forms = [rng.choice(FORMS) for _ in range(7)] if rng.random() < 0.6 else ["list"]
    # some calls are made in a with block, as the manual does
    blocks = [rng.random() < 0.4 for _ in range(5)]
    return dict(mode="calls", spec=spec, ops=ops, forms=forms, blocks=blocks)


FORMS = ["list", "list", "tuple", "array"]


def form(kind, v):
    "the same values in another kind of sequence"
    if not isinstance(v, list) or not all(isinstance(x, (int, float)) for x in v):
        return v
    return np.array(v) if kind == "array" else tuple(v) if kind == "tuple" else v


def pad(k, x, width):
    "as many values as the others have at this time"
    x = json.loads(json.dumps(x))
    if k == "elements" and len(x) == 5:
        x[3] = x[3] + [0.0] * (width[k] - len(x[3]))
    if k == "forces":
        x[1] = x[1] + [0.0] * (width[k] - len(x[1]))
    return x


# -- reference ------------------------------------------------------------------------


class Table:
    "label -> values, in order of arrival"

    def __init__(self):
        self.t = {k: {} for k in KINDS}

    def add(self, k, item):
        self.t[k][item[0]] = json.loads(json.dumps(item[1:]))

    def drop(self, k, l):
        self.t[k].pop(l, None)

    def assign(self, op):
        el = self.t["elements"]
        ls = list(el) if op[2] == "all" else op[2]
        if op[1] == "material":
            w = max([len(v[2]) for v in el.values()] + [len(op[3])])
            for v in el.values():
                v[2] = v[2] + [0.0] * (w - len(v[2]))
        for i, l in enumerate(ls):
            if l not in el or (op[1] == "geometries" and i >= len(op[3])):
                continue
            if op[1] == "material":
                el[l][2] = op[3] + [0.0] * (w - len(op[3]))
                if op[4] is not None:
                    el[l][1] = op[4]
            elif op[1] == "geometry":
                el[l][3] = list(op[3])
            elif op[1] == "geometries":
                el[l][3] = list(op[3][i])
            elif op[1] == "mtype":
                el[l][1] = op[3]

    def plain(self):
        f = lambda v: [float(x) for x in v]  # noqa: E731
        return dict(
            nodes={float(l): [[f(v[0])]] for l, v in self.t["nodes"].items()},
            elements={
                float(l): [[f(v[0]), [1.0], [float(v[1])], f(v[2]), f(v[3])]] for l, v in self.t["elements"].items()
            },
            supports={float(l): [[f(v[0])]] for l, v in self.t["bounds"].items()},
            loads={float(l): [[f(v[0])]] for l, v in self.t["forces"].items()},
        )

    def spec(self, base):
        return dict(base, **{k: [[l] + v for l, v in self.t[k].items()] for k in KINDS})


def compare(ref, m, built):
    "what is wrong with the definition, or None"
    want, got = ref.plain(), definition(m)
    for k in want:
        for l, v in want[k].items():
            if l not in got[k]:
                return f"{k}: {l:g} is missing"
            if got[k][l] != v:
                return f"{k} {l:g}: {got[k][l]} instead of {v}"
        for l in got[k]:
            if l in want[k]:
                continue
            free = k == "supports" and got[k][l] == [[[1.0, 1.0, 1.0]]]
            zero = k == "loads" and len(got[k][l]) == 1 and not any(got[k][l][0][0])
            if built and (free or zero):
                continue  # added by a build
            return f"{k} {l:g} should not be there: {got[k][l]}"
    for l, (conn, et, mt, mp, gp) in ((l, v[0]) for l, v in want["elements"].items()):
        E, l = m.Elements, int(l)
        for name, have, val in (
            ("get_nodes", E.get_nodes(l), conn), ("NA", [E.NA(l)], conn[:1]), ("NE", [E.NE(l)], conn[1:]),
            ("get_element_type", np.ravel(E.get_element_type(l)), et),
            ("get_material_type", np.ravel(E.get_material_type(l)), mt),
            ("get_material_properties", E.get_material_properties(l), mp),
            ("get_geometric_properties", E.get_geometric_properties(l), gp),
        ):
            if [float(x) for x in have] != val:
                return f"{name}({l}) gives {list(have)} instead of {val}"
    for h, names in (
        (m.Nodes, ["coords"]),
        (m.Elements, ["conns", "elem_type", "mat_type", "material_properties", "geometric_properties"]),
        (m.Boundaries, ["Uvalues"]),
        (m.ExtForces, ["forces"]),
    ):
        lab = next(v for v in (getattr(h, a, None) for a in ("labels", "Unodes", "nodes")) if v is not None or True)
        lab = getattr(h, "labels", getattr(h, "Unodes", getattr(h, "nodes", None)))
        for n in names:
            v = getattr(h, n)
            if (v is None) != (lab is None) or (v is not None and len(v) != len(lab)):
                return f"{type(h).__name__}.{n}: {None if v is None else len(v)} rows for {None if lab is None else len(lab)} labels"
    return None


class Broken(Exception):
    pass


def fits(ref, k, items):
    "as many values as the ones which are there (a shortened history may lack what made room)"
    at = {"forces": 0, "elements": 2}.get(k)
    have = [v[at] for v in ref.t[k].values()] if at is not None else []
    return not have or all(len(x[at + 1]) == len(have[0]) for x in items)


def call_add(m, kind, api, items, fail):
    import trusspy.core as tc

    def obj(x):
        if kind == "nodes":
            return tc.Node(x[0], x[1])
        if kind == "bounds":
            return tc.BoundaryU(x[0], x[1])
        if kind == "forces":
            return tc.ExternalForce(x[0], x[1])
        l, conn, mt, mp, gp = x[:5]
        extra = dict(mprop=mp) if len(x) > 5 else {}
        return tc.Element(l, conn, mat_type=mt, material_properties=mp, geometric_properties=gp, **extra)

    H = {"nodes": m.Nodes, "elements": m.Elements, "bounds": m.Boundaries, "forces": m.ExtForces}[kind]
    one = {"nodes": "add_node", "elements": "add_element", "bounds": "add_bound_U", "forces": "add_force"}[kind]
    many = {"nodes": "add_nodes", "elements": "add_elements", "bounds": "add_bounds_U", "forces": "add_forces"}[kind]
    if api == "list":
        if fail and fail[0] == "bad" and fail[2] is not None:
            items = items[: fail[1]] + [fail[2]] + items[fail[1] :]
        if fail and fail[0] == "broken-list":

            def broken():
                for k, x in enumerate(items):
                    if k == fail[1]:
                        break
                    yield obj(x)
                raise Broken("the list breaks off")

            getattr(H, many)(broken())
        else:
            getattr(H, many)([obj(x) for x in items])
        return
    for x in items:
        if api == "obj":
            getattr(H, one)(obj(x))
        elif kind == "elements":
            l, conn, mt, mp, gp = x[:5]
            extra = dict(mprop=mp) if len(x) > 5 else {}
            if api == "kw" and not extra:
                getattr(H, one)(l, conn=conn, mat_type=mt, mprop=mp, gprop=gp)
            else:
                getattr(H, one)(l, conn, 1, mt, mp, gp, **extra)
        elif api == "kw":
            name = {"nodes": "coord", "bounds": "values", "forces": "force"}[kind]
            getattr(H, one)(x[0], **{name: x[1]})
        else:
            getattr(H, one)(x[0], x[1])


def call_del(m, kind, label):
    {"nodes": m.Nodes.del_node, "elements": m.Elements.del_element, "bounds": m.Boundaries.del_bound_U,
     "forces": m.ExtForces.del_force}[kind](label)


def scribble(items):
    "what the caller does to its lists afterwards"
    for x in items:
        for v in x[1:]:
            if isinstance(v, np.ndarray) and v.size:
                v[:] = 123
            elif isinstance(v, list) and v and isinstance(v[0], (int, float)):
                v[0] = 123.0
                v.append(9.0)


@contextlib.contextmanager
def block(m, use):
    "the handlers as the names of with blocks, or directly"
    names = ("Nodes", "Elements", "Boundaries", "ExtForces")
    if not use:
        yield m
        return
    with m.Nodes as a, m.Elements as b, m.Boundaries as c, m.ExtForces as d:
        yield types.SimpleNamespace(**dict(zip(names, (a, b, c, d), strict=True)), build=m.build)


def run_calls(case, rep):
    import trusspy as tp

    m = tp.Model(log=0)
    model.apply_settings(m, case["spec"]["settings"])
    ref = Table()
    built = False
    failed = set()
    for n, op in enumerate(case["ops"]):
        fail = None
        items = held = None
        w = W.World()
        kind = case["forms"][n % len(case["forms"])]
        if op[0] in ("add", "ensure"):
            items = json.loads(json.dumps(op[3]))
            if op[0] == "ensure":
                items = [x for x in items if x[0] not in ref.t[op[1]]]
                if not items or not fits(ref, op[1], items):
                    continue
                items = [[form(kind, v) for v in x] for x in items]
                held = repr(items)
                fn = lambda m: call_add(m, op[1], op[2], items, None)  # noqa: E731
            else:
                fail = op[4]
                if op[4][0] == "bad" and not ref.t[op[1]]:
                    continue
                if op[4][0] != "bad" and any(x[0] in ref.t[op[1]] for x in items):
                    continue
                fn = lambda m: call_add(m, op[1], op[2], items, fail)  # noqa: E731
        elif op[0] in ("del", "drop"):
            if op[0] == "drop" and op[2] not in ref.t[op[1]]:
                continue
            if op[0] == "del":
                fail = op[3]
            fn = lambda m: call_del(m, op[1], op[2])  # noqa: E731
        elif op[0] == "assign":
            if not ref.t["elements"]:
                continue
            name = "assign_" + op[1]
            args = json.loads(json.dumps(op[2:]))
            args = [form(kind, v) for v in args]
            if op[1] == "geometries" and kind == "array":
                args[1] = np.array(args[1])
            held, items = repr(args), [["", *args]]
            fn = lambda m: getattr(m.Elements, name)(*args)  # noqa: E731
        else:
            if not all(ref.t[k] for k in ("nodes", "elements")) or m.ExtForces.nodes is None:
                continue
            fn = lambda m: m.build()  # noqa: E731
        if fail and fail[0] == "alloc":
            w.alloc_plan = {fail[1]}
        exc = None
        with W.active(w):
            try:
                blk = case.get("blocks", [False])
                rep.stats["probe.block"] += bool(blk[n % len(blk)])
                with block(m, blk[n % len(blk)]) as h:
                    fn(h)
            except Exception as e:
                exc = e
        rep.world(w)
        rep.part(op[0], type(exc).__name__)
        fired = bool(w.stats["fault.alloc"]) or (fail and fail[0] in ("bad", "broken-list"))
        what = f"call {n + 1} ({op[0]} {op[1] if len(op) > 1 else ''} {op[2] if op[0] in ('del', 'drop') else ''})"
        if fired and exc is not None:
            failed.add(fail[0])
            rep.stats["fail." + fail[0]] += 1
            rep.nontrivial = True
            d = compare(ref, m, built)
            if d:
                rep.bad("not-atomic", f"{what} failed with {type(exc).__name__}, afterwards {d}")
                return
            continue
        if fired and fail[0] != "alloc":
            if op[0] == "add" and not compare(ref, m, built):
                rep.bad("failure-hidden", f"{what} was given unusable data ({fail}), did nothing and reported nothing")
                return
            rep.stats["probe.accepted_bad"] += 1
            return  # it was usable after all
        if exc is not None:
            if op[0] == "build":
                rep.stats["probe.build_refused"] += 1
                d = compare(ref, m, True)
                built = True
                if d:
                    rep.bad("not-atomic", f"{what} failed with {type(exc).__name__}, afterwards {d}")
                    return
                continue
            if op[0] in ("del", "drop") and op[2] not in ref.t[op[1]]:
                pass
            else:
                rep.bad("refused", f"{what} failed with {type(exc).__name__}: {exc}")
                return
        rep.stats["call." + {"ensure": "add", "drop": "del"}.get(op[0], op[0])] += 1
        if op[0] in ("add", "ensure"):
            for x in (op[3]):
                if x[0] not in ref.t[op[1]]:
                    if built and op[1] in ("bounds", "forces") and x[0] in ref.t["nodes"]:
                        rep.stats["probe.replaced_default"] += 1
                    ref.add(op[1], x)
        elif op[0] in ("del", "drop"):
            ref.drop(op[1], op[2])
            if not ref.t[op[1]]:
                rep.stats["probe.deleted_last"] += 1
        elif op[0] == "assign":
            ref.assign(op)
        else:
            built = True
        if held is not None:
            rep.stats["form." + kind] += 1
            if repr(items if op[0] == "ensure" else args) != held:
                rep.bad("argument-changed", f"{what} changed the values it was given")
                return
            scribble(items)
        d = compare(ref, m, built)
        if d:
            rep.bad("wrong-definition", f"after {what}: {d}")
            return
    rep.key("calls", sorted({o[0] for o in case["ops"]}), sorted(failed), *[len(ref.t[k]) for k in KINDS])
    if not all(ref.t[k] for k in ("nodes", "elements", "forces")):
        return
    spec = ref.spec(case["spec"])
    a = runner.forked(lambda: outcome(lambda: model.make(spec)))
    b = outcome(lambda: m)
    rep.stats["probe.ran"] += 1
    rep.part(b["status"], [sorted(s.items()) for s in b["snaps"]])
    d = same(a, b)
    if d:
        rep.bad("model-differs", f"model after the calls against one defined in one go: {d}")


def outcome(make, faults=()):
    w = W.World(faults, budget=6000)
    old, sys.stdout = sys.stdout, W.Out(w)
    try:
        m = make()
        r = model.Run(m, w)
    finally:
        sys.stdout = old
    return dict(status=r.status, snaps=[{k: v.hex() for k, v in model.snap(x).items()} for x in r.R],
                solves=w.nsolve, stats=dict(w.stats))


def same(a, b):
    if a["status"] != b["status"]:
        return f"ended with {b['status']} instead of {a['status']}"
    return model.diff(a["snaps"], b["snaps"])


def renumber(spec, ren):
    if not ren:
        return spec
    n, e = dict(map(tuple, ren[0])), dict(map(tuple, ren[1]))
    return dict(
        spec,
        nodes=[[n[l], c] for l, c in spec["nodes"]],
        elements=[[e[x[0]], [n[a] for a in x[1]], *x[2:]] for x in spec["elements"]],
        bounds=[[n[l], v] for l, v in spec["bounds"]],
        forces=[[n[l], f] for l, f in spec["forces"]],
    )


def run_order(case, rep):
    spec = case["spec"]
    a = runner.forked(lambda: outcome(lambda: model.make(spec, api="single"), case["faults"]))
    seq = [[k, x] for k, x in case["seq"]]
    if case["ren"]:
        one = {k: renumber(dict(spec, **{q: ([x] if q == k else []) for q in KINDS}), case["ren"])[k][0]
               for k, x in ()}  # noqa: F841
        new = []
        for k, x in seq:
            part = dict(nodes=[], elements=[], bounds=[], forces=[])
            part[k] = [x]
            new.append([k, renumber(part, case["ren"])[k][0]])
        seq = new

    def make():
        import trusspy as tp

        m = tp.Model(log=spec.get("log", 0))
        for k, x in seq:
            x = list(x)
            if case["numpy_labels"]:
                x[0] = np.int64(x[0])
            call_add(m, k, {"single": "obj"}.get(case["api"], case["api"]), [x], None)
        model.apply_settings(m, spec["settings"])
        return m

    b = outcome(make, case["faults"])
    rep.stats.update(b["stats"])
    rep.stats["solves"] += b["solves"]
    rep.nontrivial = True
    rep.part(b["status"], [sorted(s.items()) for s in b["snaps"]])
    rep.key("order", bool(case["ren"]), case["api"], a["status"], len(spec["nodes"]), len(spec["elements"]))
    d = same(a, b)
    if d:
        rep.bad("order-matters", f"calls in another order{' with other labels' if case['ren'] else ''}: {d}")


def run_relabel(case, rep):
    spec = case["spec"]
    new = renumber(spec, case["ren"])
    new = dict(new, elements=[new["elements"][k] for k in case["order"]])
    new["elements"] = [
        [e[0], e[1][::-1] if f else e[1], *e[2:]] for e, f in zip(new["elements"], case["flip"])
    ]
    A = path.PathRun(dict(spec=spec, faults=[]), rep)
    B = path.PathRun(dict(spec=new, faults=[]), rep)
    rep.nontrivial = True
    rep.key("relabel", spec["family"], len(A.R))
    if A.exc is not None or not path.sane(A):
        rep.stats["probe.relabel_skipped"] += 1
        return
    if [len(x) for x in A.steps()] != A.incs():
        rep.stats["probe.relabel_skipped"] += 1
        return
    if B.exc is not None:
        rep.bad("numbering-matters", f"with other labels the run ends with {type(B.exc).__name__}")
        return
    if len(A.R) != len(B.R):
        rep.bad("numbering-matters", f"{len(B.R) - 1} increments with other labels, {len(A.R) - 1} before")
        return
    ra, rb = mech.Ref(spec), mech.Ref(new)
    n = dict(map(tuple, case["ren"][0]))
    la, lb = sorted(x[0] for x in spec["nodes"]), sorted(x[0] for x in new["nodes"])
    pos = [lb.index(n[l]) for l in la]
    inv = [case["order"].index(k) for k in range(len(spec["elements"]))]
    for i in range(1, len(A.R)):
        x, y = A.R[i], B.R[i]
        for name, p, q in (
            ("U", np.asarray(x.U), np.asarray(y.U)[pos]),
            ("r", np.asarray(x.r), np.asarray(y.r)[pos]),
            ("stress", np.asarray(x.element_stress).ravel(), np.asarray(y.element_stress).ravel()[inv]),
            ("element force", np.asarray(x.element_force).ravel(), np.asarray(y.element_force).ravel()[inv]),
        ):
            tol = 1e-6 * max(1e-3, np.abs(p).max())
            if not np.all(np.abs(p - q) <= tol):
                rep.bad("numbering-matters", f"increment {i}: {name} differs by {np.abs(p - q).max():.3e} with other labels")
                return


def run(case, rep):
    rep.stats["mode." + case["mode"]] += 1
    dict(calls=run_calls, order=run_order, relabel=run_relabel)[case["mode"]](case, rep)


def shrink(case):
    if case["mode"] == "calls":
        for ops in runner.shrink_list(case["ops"]):
            yield dict(case, ops=ops)
        for i, op in enumerate(case["ops"]):
            if op[0] in ("add", "ensure") and len(op[3]) > 1:
                for items in runner.shrink_list(op[3], least=1):
                    yield dict(case, ops=case["ops"][:i] + [op[:3] + [items] + op[4:]] + case["ops"][i + 1 :])
    elif case["mode"] == "order":
        for f in runner.shrink_faults(case["faults"]):
            yield dict(case, faults=f)
        if case["ren"]:
            yield dict(case, ren=None)
        s = case["spec"]["settings"]
        if isinstance(s["incs"], list) or s["incs"] > 1:
            yield dict(case, spec=dict(case["spec"], settings=dict(s, incs=1)))
