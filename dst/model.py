"""From a specification (plain data) to a trusspy model, and from results to
plain data."""
import hashlib

import numpy as np

from . import world as W

SETTINGS_TUPLES = ("incs", "xlimit")


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, list) else v


def apply_settings(m, settings):
    for k, v in settings.items():
        if k in SETTINGS_TUPLES:
            v = tup(v)
            if k == "xlimit":
                v = fix_inf(v)
                if not isinstance(v[0], tuple) and round(1e6 * min(v[1], 1)) % 2:
                    v = list(v)  # both are accepted
        setattr(m.Settings, k, v)


def fix_inf(v):
    if isinstance(v, tuple):
        return tuple(fix_inf(x) for x in v)
    return np.inf if v is None else v


def define(m, spec, api="single", core=None):
    """make the definition calls.  api: 'single' (one call per item), 'list'
    (lists of core objects), 'raw' (plain arguments)"""
    import trusspy as tp

    if core is None:
        core = make_core(spec)
    if api == "list":
        m.Nodes.add_nodes(core["nodes"])
        m.Elements.add_elements(core["elements"])
        if core["bounds"]:
            m.Boundaries.add_bounds_U(core["bounds"])
        m.ExtForces.add_forces(core["forces"])
    elif api == "raw":
        for l, c in spec["nodes"]:
            m.Nodes.add_node(l, coord=c)
        for l, conn, mt, mp, gp in spec["elements"]:
            m.Elements.add_element(
                l, conn=conn, mat_type=mt, material_properties=mp, geometric_properties=gp
            )
        for l, v in spec["bounds"]:
            m.Boundaries.add_bound_U(l, v)
        for l, f in spec["forces"]:
            m.ExtForces.add_force(l, f)
    else:
        for x in core["nodes"]:
            m.Nodes.add_node(x)
        for x in core["elements"]:
            m.Elements.add_element(x)
        for x in core["bounds"]:
            m.Boundaries.add_bound_U(x)
        for x in core["forces"]:
            m.ExtForces.add_force(x)
    return core


def make_core(spec):
    import trusspy.core as tc

    return dict(
        nodes=[tc.Node(l, coord=c) for l, c in spec["nodes"]],
        elements=[
            tc.Element(
                l, conn=conn, mat_type=mt, material_properties=list(mp),
                geometric_properties=list(gp),
            )
            for l, conn, mt, mp, gp in spec["elements"]
        ],
        bounds=[tc.BoundaryU(l, v) for l, v in spec["bounds"]],
        forces=[tc.ExternalForce(l, f) for l, f in spec["forces"]],
    )


def make(spec, api="single", core=None, **kw):
    import trusspy as tp

    kw.setdefault("log", spec.get("log", 0))
    m = tp.Model(**kw)
    define(m, spec, api=api, core=core)
    apply_settings(m, spec["settings"])
    return m


FIELDS = (
    "U",
    "U0",
    "r",
    "g",
    "K",
    "Kred",
    "Kmod",
    "stretch",
    "element_force",
    "element_stress",
    "element_stress0",
    "state_v",
    "dVmax",
    "step",
    "lpf",
    "Vred",
    "Ured",
    "f0red",
    "DOF0",
    "DOF1",
)


def b(v):
    "exact byte representation"
    if v is None:
        return b"None"
    a = np.asarray(v)
    if a.dtype == object:
        return repr(v).encode()
    if a.dtype.kind in "iub":
        a = a.astype(np.int64)
    else:
        a = a.astype(np.float64) + 0.0  # -0.0 == 0.0
    return repr(a.shape).encode() + a.tobytes()


# What a user reads from an entry.  The order matters only for the messages.
PUBLIC = (
    "lpf",
    "step",
    "U",
    "U0",
    "r",
    "stretch",
    "element_force",
    "element_stress",
    "element_stress0",
    "state_v",
    "K",
    "rred",
)


def snap(r, fields=PUBLIC):
    d = {k: b(getattr(r, k, None)) for k in fields}
    ef = getattr(r, "ExtForces", None)
    if ef is not None:
        d["ExtForces.forces"] = b(getattr(ef, "forces", None))
        d["ExtForces.forces_const"] = b(getattr(ef, "forces_const", None))
    return d


def digest(snaps):
    h = hashlib.sha256()
    for s in snaps:
        for k in sorted(s):
            h.update(k.encode())
            h.update(s[k])
    return h.hexdigest()[:16]


def snaps(results, fields=PUBLIC):
    return [snap(r, fields) for r in results.R]


def diff(a, c, what="entry"):
    "first difference between two lists of snapshots, or None"
    for i, (x, y) in enumerate(zip(a, c)):
        for k in list(x) + [k for k in y if k not in x]:
            if x.get(k) != y.get(k):
                return f"{what} {i}: {k} differs"
    if len(a) != len(c):
        return f"{len(a)} against {len(c)} {what}s"
    return None


class Run:
    "one build+run of a model in a world, and what came out"

    def __init__(self, m, w, build=True, run=True):
        self.m, self.w = m, w
        self.exc = None
        with W.active(w):
            try:
                if build:
                    m.build()
                if run:
                    m.run()
            except W.SimBudget as e:
                self.exc = e
            except (Exception, KeyboardInterrupt) as e:
                self.exc = e
        self.R = list(m.Results.R) if hasattr(m, "Results") else []

    @property
    def status(self):
        return "ok" if self.exc is None else type(self.exc).__name__
