"""C13: a movie shows exactly the requested increments, in order."""
import errno
import hashlib
import io
import os
import sys

import numpy as np

from .. import boot, figures
from .. import gen as G
from .. import model, runner
from .. import world as W
from . import path

ID = "C13"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 20000
COMPONENTS = {
    "real": ["trusspy.Model.plot_movie, plot_model and tools (p_movie, png_to_gif)", "matplotlib figures",
             "imageio and Pillow (PNG reading, GIF writing)", "file system (scratch folder)"],
    "stub": ["Figure.savefig (writes a small picture that encodes the content of the figure; real in some cases)",
             "directory listing order", "file system faults, short writes, full disk", "process death (forked process)"],
}
ASSUMPTIONS = [
    "requested increments are positive and distinct",
    "a process that dies leaves behind what it had written until then (file data are not lost or reordered)",
    "matplotlib, imageio, Pillow are trusted to report failed system calls",
]
STATES = "distinct (number of movies, faults fired and outcome per movie, size of increment numbers, leftovers)"
RULE = (
    "sequence of 1-3 movies of one model with listing orders, file system faults, full disk, interruptions and "
    "process deaths from (VERIF_SEED, C13, i), then a movie without faults. Non-trivial: a fault fired or the "
    "listing order was permuted"
)
PROBES = ("probe.complete", "probe.error_raised", "probe.died", "probe.interrupted", "probe.after_failure",
          "probe.long_numbers", "probe.leftover", "probe.subset", "probe.real_pictures", "shuffle",
          "fault.io.open", "fault.io.write", "fault.io.full", "fault.io.lost")

SIDE = ["figures2/keep.png", "png/fig_001.png", "movie.gif", "gif/movie.gif", "notes.txt", "fig_001.png", "figures.md"]


def gen(rng, i, tier):
    spec = G.scenario(rng, max_steps=2, family=rng.choice(["bar", "twobar", "tripod"]), simple=True, incs=3)
    spec["settings"] = dict(nsteps=spec["settings"].get("nsteps", 1), du=1.0, dlpf=0.01, incs=2)
    spec["log"] = 0
    real = i % 40 == 5
    movies = []
    for k in range(rng.choice([1, 1, 2, 3])):
        m = movie(rng, real)
        what = rng.choice(["none", "io", "io", "io", "die", "die", "interrupt", "lost"])
        if what == "io":
            kind = rng.choice(["op", "op", "write", "write", "full", "short"])
            if kind == "op":
                for _ in range(rng.choice([1, 1, 2])):
                    m["io"].setdefault("fail", {})[str(rng.randrange(0, 40))] = rng.choice(
                        [errno.EIO, errno.EACCES, errno.ENOSPC, errno.EMFILE]
                    )
            elif kind == "write":
                a = rng.randrange(0, 16)
                m["io"]["write_fail"] = {
                    str(j): rng.choice([errno.EIO, errno.ENOSPC]) for j in range(a, a + rng.choice([1, 1, 3, 99]))
                }
            elif kind == "full":
                m["io"]["space"] = int(10 ** rng.uniform(0, 3.7))
            else:
                m["io"]["chunk"] = rng.choice([1, 50, 1000])
        elif what == "die":
            m["io"][rng.choice(["crash", "crash_write"])] = rng.randrange(0, 45)
        elif what == "interrupt":
            if rng.random() < 0.5:
                m["io"]["crash_exc"] = rng.randrange(0, 45)
            else:
                m["io"]["write_fail"] = {str(rng.randrange(0, 16)): "interrupt"}
        elif what == "lost" and not real:
            m["lost"] = {str(rng.randrange(0, 6)): rng.choice([0, 0, 0.3, 0.7, 0.98])}
        if m["io"] and rng.random() < 0.3:
            m["io"].pop("shuffle", None)
        movies.append(m)
    movies.append(movie(rng, real))
    return dict(spec=spec, movies=movies, real=real, side=rng.sample(SIDE, rng.randrange(0, len(SIDE))),
                leftover=rng.choice([None, None, "long", "torn", "odd"]), api="single")


def movie(rng, real):
    form = rng.choice(["all", "few", "few", "long", "range"])
    if real:
        form = "few"
    n = rng.choice([2, 3, 5, 8, 12])
    if form == "all":
        incs, total = "all", rng.choice([1, 2, 3, 9, 10, 11, 13])
    elif form == "few":
        total = rng.choice([5, 20, 120])
        incs = sorted(rng.sample(range(1, total + 1), min(n, total, 4 if real else 8)))
    elif form == "range":
        total = rng.choice([12, 30])
        a = rng.randrange(1, 8)
        incs = list(range(a, a + rng.randrange(1, 5)))
    else:
        marks = [1, 2, 9, 10, 11, 99, 100, 101, 998, 999, 1000, 1001, 1010, 9999, 10000, 10001, 20000]
        incs = sorted(rng.sample(marks, min(n, 8)))
        total = 20001
    if isinstance(incs, list) and rng.random() < 0.2:
        rng.shuffle(incs)
    kw = rng.choice([{}, {}, {"duration": 0.2}, {"loop": 0}])
    look = {}
    if rng.random() < 0.5:
        look = dict(lim_scale=rng.choice([1.2, 1.5, 2.0, -3]), force_scale=rng.choice([0.5, 1.0, 0.1]),
                    nodesize=rng.choice([10, 3]))
        if rng.random() < 0.5:
            look["cbar_limits"] = [-0.5, 1.5]
    return dict(
        look=look, seq=rng.choice(["list", "list", "tuple", "range", "array"]),
        incs=incs, total=total, view=rng.choice(["xz", "xz", "xy", "yz", "3d"]) if rng.random() < 0.3 else "xz",
        contour=rng.choice([None, None, "force", "stress", "stretch"]), kw=kw,
        io=dict(shuffle=rng.randrange(10**6)) if rng.random() < 0.8 else {},
    )


# -- pictures ---------------------------------------------------------------------------


def code_of(fig):
    "what is drawn, as 192 bits"
    h = hashlib.sha256()
    for ax in fig.axes:
        for t in (ax.get_title(), ax.get_xlabel(), ax.get_ylabel()):
            h.update(t.encode())
        for line in ax.lines:
            for v in line.get_data():
                h.update(np.round(np.asarray(v, float), 9).tobytes())
            h.update(str(line.get_color()).encode())
        for v in (ax.get_xlim(), ax.get_ylim()):
            h.update(np.round(np.asarray(v, float), 9).tobytes())
        for p in ax.patches:
            if hasattr(p, "_dx"):
                h.update(np.round(np.array([p._x, p._y, p._dx, p._dy], float), 9).tobytes())
        for c in ax.collections:
            if hasattr(c, "get_sizes"):
                h.update(np.asarray(c.get_sizes(), float).tobytes())
        for t in ax.texts:
            h.update(t.get_text().encode())
    return h.digest()[:24]


def picture(code):
    from PIL import Image

    bits = np.unpackbits(np.frombuffer(code, np.uint8)).reshape(12, 16)
    px = np.kron(bits, np.ones((2, 2), np.uint8)) * 255
    rgba = np.dstack([px, px, px, np.full_like(px, 255)])
    buf = io.BytesIO()
    Image.fromarray(rgba.astype(np.uint8), "RGBA").save(buf, format="PNG")
    return buf.getvalue()


def decode(image):
    px = np.asarray(image.convert("L"))
    if px.shape != (24, 32):
        return f"{px.shape[1]}x{px.shape[0]} pixels"
    return np.packbits((px[::2, ::2] > 127).astype(np.uint8)).tobytes().hex()


def frames(file):
    from PIL import Image, ImageSequence

    with boot.real_open(file, "rb") as f:
        data = f.read()
    return [decode(x.copy()) for x in ImageSequence.Iterator(Image.open(io.BytesIO(data)))]


def fake_savefig(self, fname, *args, **kwargs):
    data = picture(code_of(self))
    if hasattr(fname, "write"):
        fname.write(data)
        return
    name = os.fspath(fname)
    if not name.endswith(".png"):
        name += ".png" if "." not in os.path.basename(name) else ""
    keep = LOST.get("plan", {}).get(str(LOST.setdefault("n", 0)))
    LOST["n"] += 1
    if keep is not None:  # the disk loses a part of it and does not say so
        data = data[: int(keep * len(data))]
        LOST["stats"]["fault.io.lost"] += 1
    with open(name, "wb") as f:
        f.write(data)


LOST = {}


# -- a run ------------------------------------------------------------------------------


class Studio:
    def __init__(self, case, root):
        self.case, self.root = case, root
        w = W.World(budget=3000)
        with W.active(w):
            self.m = model.make(case["spec"])
            self.m.build()
            self.m.run()
        self.base = list(self.m.Results.R)
        self.codes = {}
        self.problem = None

    def length(self, total):
        n = len(self.base) - 1
        self.m.Results.R = [self.base[0]] + [self.base[1 + i % n] for i in range(total)]

    def want(self, mv):
        "pictures of the requested increments, in order"
        import matplotlib.pyplot as plt

        incs = range(1, mv["total"] + 1) if mv["incs"] == "all" else sorted(mv["incs"])
        out = []
        for i in incs:
            look = dict(dict(lim_scale=1.2, force_scale=0.5, nodesize=10), **mv["look"])
            key = (i, mv["view"], mv["contour"], (i - 1) % (len(self.base) - 1), repr(look))
            if key not in self.codes:
                fig, _ = self.m.plot_model(view=mv["view"], contour=mv["contour"], inc=i, **look)
                self.codes[key] = code_of(fig).hex()
                self.problem = self.problem or figures.audit(
                    fig, self.m, self.case["spec"], self.m.Results.R[i], i, mv["view"], mv["contour"],
                    look.get("cbar_limits", "auto"), look["force_scale"])
                plt.close("all")
            out.append(self.codes[key])
        return out

    def shoot(self, mv):
        incs = mv["incs"]
        if incs != "all":
            a, b = incs[0], incs[-1]
            if mv["seq"] == "range" and incs == list(range(a, b + 1)):
                incs = range(a, b + 1)
            else:
                incs = dict(tuple=tuple, array=np.array).get(mv["seq"], list)(incs)
        self.m.plot_movie(view=mv["view"], contour=mv["contour"], incs=incs, **mv["look"], **mv["kw"])


def check(root, want):
    "what is wrong with the movie on disk, or None"
    from PIL import Image

    fig = os.path.join(root, "figures")
    pngs, gifs = [], []
    for d, _, files in os.walk(fig):
        for f in files:
            (pngs if f.endswith(".png") else gifs if f.endswith(".gif") else []).append(os.path.join(d, f))
    got = []
    for p in pngs:
        with boot.real_open(p, "rb") as f:
            data = f.read()
        try:
            im = Image.open(io.BytesIO(data))
            im.load()
            got.append(decode(im))
        except Exception:
            return f"{os.path.basename(p)} is not a picture"
    if sorted(got) != sorted(want):
        if len(got) != len(want):
            return f"{len(got)} pictures for {len(want)} increments"
        return "a picture does not show the requested increment"
    if len(gifs) != 1:
        return f"{len(gifs)} GIF files"
    try:
        fr = frames(gifs[0])
    except Exception as e:
        return f"the GIF cannot be read: {type(e).__name__}"
    if fr != want:
        if len(fr) != len(want):
            return f"{len(fr)} frames for {len(want)} increments"
        if sorted(fr) == sorted(want):
            return f"frames are in the order {[want.index(x) + 1 for x in fr]} of the requested increments"
        return "a frame does not show the requested increment"
    return None


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == "figures" or rel.startswith("figures" + os.sep):
            continue
        for f in files:
            p = os.path.join(d, f)
            with boot.real_open(p, "rb") as h:
                out[os.path.join(rel, f)] = hashlib.sha256(h.read()).hexdigest()
        for x in dirs:
            out[os.path.join(rel, x)] = "dir"
    out.pop(os.path.join(".", "figures"), None)
    return out


def put(root, name, data):
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with boot.real_open(p, "wb") as f:
        f.write(data)


def run(case, rep):
    import matplotlib.figure
    import matplotlib.pyplot as plt

    top = os.getcwd()
    root = os.path.join(top, "work")
    os.makedirs(root)
    os.environ["IMAGEIO_USERDIR"] = os.path.join(os.path.realpath(top), "imageio")  # of imageio, not of trusspy
    os.mkdir(os.environ["IMAGEIO_USERDIR"])
    for name in case["side"]:
        put(root, name, b"not to be touched " + name.encode())
    junk = picture(b"\x5a" * 24)
    if case["leftover"]:
        rep.stats["probe.leftover"] += 1
        for i in {"long": range(0, 60), "torn": [1, 2, 3], "odd": [1, 500, 1000, 10000]}[case["leftover"]]:
            put(root, f"figures/png/fig_{i:03d}.png", junk if case["leftover"] != "torn" else junk[: len(junk) // 3])
        if case["leftover"] != "long":
            put(root, "figures/gif/movie.gif", b"GIF89a")
        if case["leftover"] == "odd":
            put(root, "figures/png/zz.png", junk)
            put(root, "figures/movie.gif.tmp", b"")
    before = tree(root)
    os.chdir(root)
    sys.stdout = W.Out()
    st = Studio(case, root)
    if len(st.base) < 2:
        rep.part("no increments")
        return
    if case["real"]:
        return real(case, st, root, rep)
    # whatever matplotlib opens for the first time, it opens here
    st.length(1)
    st.want(dict(incs=[1], total=1, view="xz", contour="force", look={}))
    real_save = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = fake_savefig
    states = []
    try:
        for k, mv in enumerate(case["movies"]):
            last = k == len(case["movies"]) - 1
            st.length(mv["total"])
            want = st.want(mv)
            if st.problem:
                rep.bad("wrong-picture", st.problem)
                return
            if max(range(mv["total"] + 1) if mv["incs"] == "all" else mv["incs"]) > 999:
                rep.stats["probe.long_numbers"] += 1
            rep.stats["probe.subset"] += mv["incs"] != "all"
            w = W.World(budget=10, io=None)
            sim = W.IOSim(root, mv["io"], stats=w.stats, ev=w.ev)
            sim.free = os.environ["IMAGEIO_USERDIR"]
            LOST.clear()
            LOST.update(plan=mv.get("lost", {}), stats=w.stats)
            if "crash" in mv["io"] or "crash_write" in mv["io"]:
                status = dying(st, mv, w, sim)
            else:
                status = shoot(st, mv, w, sim)
                plt.close("all")
            fired = sorted(x for x in w.stats if x.startswith("fault") and x != "fault.io.short")
            rep.world(w)
            if w.stats["shuffle"]:
                rep.nontrivial = True
            states.append((status, fired))
            rep.part(status, [sorted(x) for x in ()])
            where = f"movie {k + 1} of {len(case['movies'])} ({len(want)} increments)"
            if sim.escapes:
                rep.bad("outside", f"{where}: {sim.escapes[0]} is outside of the figures folder")
                return
            if tree(root) != before:
                now = tree(root)
                diff = sorted(set(now.items()) ^ set(before.items()))
                rep.bad("outside", f"{where}: {diff[0][0]} outside of the figures folder was changed")
                return
            if status == "ok":
                rep.stats["probe.complete"] += 1
                d = check(root, want)
                if d:
                    rep.bad("incomplete" if fired else "wrong-movie", f"{where} reported no error ({', '.join(fired) or 'no fault'}): {d}")
                    return
                if k and states[k - 1][0] != "ok":
                    rep.stats["probe.after_failure"] += 1
            elif status == "died":
                rep.stats["probe.died"] += 1
            elif status == "KeyboardInterrupt":
                rep.stats["probe.interrupted"] += 1
            else:
                rep.stats["probe.error_raised"] += 1
                if not fired:
                    rep.bad("fails", f"{where} without any fault ended with {status} (before: {[s for s, _ in states[:-1]]})")
                    return
    finally:
        matplotlib.figure.Figure.savefig = real_save
    rep.key([(s, [f.replace("fault.", "") for f in fl]) for s, fl in states], case["leftover"],
            max(m["total"] for m in case["movies"]) > 999)
    rep.part(states)


def shoot(st, mv, w, sim):
    w.io = sim
    with W.active(w):
        try:
            st.shoot(mv)
            s = "ok"
        except (Exception, KeyboardInterrupt) as e:
            s = type(e).__name__
    w.io = None
    return s


def dying(st, mv, w, sim):
    "make the movie in a process that dies where the plan says"
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)

        def tell(s):
            import json

            w.io = None
            os.write(wr, json.dumps([s, dict(w.stats), w.digest(), [list(map(str, e)) for e in sim.escapes]]).encode())

        sim.on_crash = lambda: tell("died")
        try:
            tell(shoot(st, mv, w, sim))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    import json

    s, stats, digest, escapes = json.loads(data)
    w.stats.update(stats)
    w.ev("child", digest)
    sim.escapes = [tuple(e) for e in escapes]
    return s


def real(case, st, root, rep):
    "with real pictures: each frame must be closest to the picture of its own increment"
    from PIL import Image, ImageSequence
    import matplotlib.pyplot as plt

    mv = case["movies"][-1]
    st.length(mv["total"])
    w = W.World(budget=10)
    sim = W.IOSim(root, dict(shuffle=mv["io"].get("shuffle", 1)), stats=w.stats, ev=w.ev)
    s = shoot(st, mv, w, sim)
    rep.world(w)
    rep.nontrivial = True
    rep.part("real", s)
    rep.key("real", len(mv["incs"]))
    if s != "ok":
        rep.bad("fails", f"movie with real pictures ended with {s}")
        return
    ref = []
    for i in sorted(mv["incs"]):
        look = dict(dict(lim_scale=1.2, force_scale=0.5, nodesize=10), **mv["look"])
        st.m.plot_model(view=mv["view"], contour=mv["contour"], inc=i, **look)
        buf = io.BytesIO()
        plt.savefig(buf, dpi=200)
        plt.close("all")
        ref.append(np.asarray(Image.open(buf).convert("L"), float))
    files = [os.path.join(d, f) for d, _, fs in os.walk("figures") for f in fs if f.endswith(".png")]
    if len(files) != len(ref):
        rep.bad("wrong-movie", f"{len(files)} pictures for {len(ref)} increments")
        return
    gif = [os.path.join(d, f) for d, _, fs in os.walk("figures") for f in fs if f.endswith(".gif")]
    got = [np.asarray(x.convert("L"), float) for x in ImageSequence.Iterator(Image.open(gif[0]))]
    if len(got) != len(ref):
        rep.bad("wrong-movie", f"{len(got)} frames for {len(ref)} increments")
        return
    for k, g in enumerate(got):
        if any(g.shape != r.shape for r in ref):
            return  # another resolution
        d = [np.abs(g - r).mean() for r in ref]
        if int(np.argmin(d)) != k:
            rep.bad("wrong-movie", f"frame {k + 1} shows increment {sorted(mv['incs'])[int(np.argmin(d))]}")
            return
    rep.stats["probe.real_pictures"] += 1


def shrink(case):
    for ms in runner.shrink_list(case["movies"], least=1):
        yield dict(case, movies=ms)
    if case["leftover"]:
        yield dict(case, leftover=None)
    for side in runner.shrink_list(case["side"]):
        yield dict(case, side=side)
    for k, mv in enumerate(case["movies"]):
        def sub(m):
            return dict(case, movies=case["movies"][:k] + [m] + case["movies"][k + 1 :])

        for key in mv["io"]:
            yield sub(dict(mv, io={a: b for a, b in mv["io"].items() if a != key}))
        if isinstance(mv["incs"], list):
            for l in runner.shrink_list(mv["incs"], least=1):
                yield sub(dict(mv, incs=l))
        elif mv["total"] > 1:
            yield sub(dict(mv, total=mv["total"] - 1))
        if mv["contour"]:
            yield sub(dict(mv, contour=None))
        if mv["kw"]:
            yield sub(dict(mv, kw={}))
        if mv["look"]:
            yield sub(dict(mv, look={}))
        if mv["seq"] != "list":
            yield sub(dict(mv, seq="list"))
        if mv.get("lost"):
            yield sub(dict(mv, lost={}))
