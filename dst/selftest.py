"""Checks of the simulator itself."""
import hashlib
import json
import os
import subprocess
import sys

from . import boot, runner

PROPS = ["C%02d" % k for k in range(1, 17)]


def setup():
    "the code under test imports, a model runs, the virtual seams are in place"
    import numpy as np
    import trusspy as tp

    from . import gen, model
    from . import world as W

    spec = gen.scenario(gen.rng_for(1, "setup"), simple=True, family="bar", max_steps=1)
    sys.stdout, old = W.Out(), sys.stdout
    try:
        w = W.World(budget=2000, clock=dict(wall=[1.0], cpu=[0.5]), alloc=set())
        run = model.Run(model.make(spec), w)
    finally:
        sys.stdout = old
    if run.exc is not None or w.nsolve == 0 or w.nalloc == 0 or w.nclock == 0:
        print("setup failed:", run.exc, w.nsolve, w.nalloc, w.nclock)
        return 1
    print(f"trusspy {tp.__version__} from {boot.SRC}, numpy {np.__version__}: {w.nsolve} simulated solves")
    return 0


def digests(pid, n, seed, jobs, hashseed):
    env = dict(os.environ, DST_HASHSEED=str(hashseed), DST_NO_EVIDENCE="1")
    p = subprocess.run(
        [os.path.join(runner.HERE, "run"), "digests", pid, "-n", str(n), "--seed", str(seed), "--jobs", str(jobs)],
        stdout=subprocess.PIPE, env=env, timeout=1800,
    )
    return p.returncode, p.stdout.decode()


def determinism(a):
    "same seeds twice, with other worker counts and hash seeds: equal event logs"
    bad = 0
    for pid in [a.what] if a.what else PROPS:
        n = a.n or 60
        ref = None
        rows = []
        for jobs, hs in ((8, 0), (8, 0), (1, 0), (3, 77), (8, 4242)):
            code, out = digests(pid, n if jobs > 1 else min(n, 40), a.seed, jobs, hs)
            d = json.loads(out.splitlines()[-1])
            if ref is None:
                ref = d
            diff = [k for k in d if d[k] != ref.get(k)]
            rows.append(len(diff))
            if diff:
                print(f"{pid}: jobs={jobs} hashseed={hs}: cases {diff[:5]} differ")
                bad = 1
        h = hashlib.sha256(json.dumps(ref, sort_keys=True).encode()).hexdigest()[:12]
        print(f"{pid}: {len(ref)} cases x {len(rows)} repetitions, differing {rows}, {h}", flush=True)
    return bad


def print_digests(a):
    code, d = runner.check(a.what, a.tier, a.seed, a.jobs, a.n, a.cap, False)
    print(json.dumps({str(k): d[k] for k in sorted(d)}))
    return 0 if code == 0 else 2
