"""Runs simulated cases, each in its own forked process, minimises what fails,
confirms it in a fresh process and writes the evidence.

One integer (VERIF_SEED) decides everything: case i of property P is generated
from (seed, P, i) and is plain data; a run is a function of that data and the
code under test."""
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback
from collections import Counter

from . import boot, gen
from . import world as W

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 150.0


def prop_module(pid):
    return importlib.import_module("dst.props." + pid.lower())


class Result(dict):
    pass


class Report:
    "collected by a property's run(case)"

    def __init__(self):
        self.violations = []
        self.stats = Counter()
        self.keys = set()
        self.sim_s = 0.0
        self.nontrivial = False
        self.parts = []

    def bad(self, kind, detail=""):
        if len(self.violations) < 5:
            self.violations.append([kind, str(detail)[:600]])

    def world(self, w):
        "account for a world after use"
        self.stats.update(w.stats)
        self.stats["solves"] += w.nsolve
        self.parts.append(w.digest())
        if any(k.startswith(("fault", "crash")) for k in w.stats):
            self.nontrivial = True
        if w.clock is not None:
            self.sim_s += w.clock.wall / 1e9
        else:
            self.sim_s += 0.005 * w.nsolve  # nominal cost of a simulated solve

    def key(self, *k):
        self.keys.add("/".join(str(x) for x in k))

    def part(self, *p):
        self.parts.append(repr(p))

    def as_dict(self):
        import hashlib

        return dict(
            violations=self.violations,
            stats=dict(self.stats),
            keys=sorted(self.keys),
            sim_s=round(self.sim_s, 6),
            nontrivial=self.nontrivial,
            digest=hashlib.sha256("|".join(self.parts).encode()).hexdigest()[:24],
        )


# -- one case ------------------------------------------------------------------


class TooMuch(BaseException):
    "more lines of library code than any case needs"


class LibraryError(Exception):
    "an exception of the library that reached the harness in a forked helper"


SEAMS = ("alloc",)  # wrappers which only pass on a call of the library


def from_library(exc):
    """did the library raise this, in a place where a property expects a result?
    (the last frame that is either the harness's or the library's decides)"""
    if isinstance(exc, LibraryError):
        return True
    if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError)):
        return False
    if isinstance(exc, AttributeError) and type(exc.obj).__module__.partition(".")[0] == "trusspy":
        return True  # public data is missing
    last = None
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(boot.PKG):
            last = True
        elif name.startswith(os.path.join(HERE, "dst")) and tb.tb_frame.f_code.co_name not in SEAMS:
            last = False
        tb = tb.tb_next
    return last is not None and (last or getattr(exc, "given_by_library", False))


def execute(mod, case):
    "run a case in this very process (a forked child)"
    rep = Report()
    try:
        if "regenerate" in case:
            case = make_case_apart(mod, *case["regenerate"])
        mod.run(case, rep)
    except Exception as e:
        if not from_library(e):
            raise
        text = str(e) if isinstance(e, LibraryError) else f"{type(e).__name__}: {e}"
        rep.bad("unexpected-error", "the library raised, where no error is due: " + text)
        rep.part("unexpected-error")
    return rep.as_dict()


def _child(fd, root, fn):
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        scratch = os.path.join(root, f"c{os.getpid()}")
        os.mkdir(scratch)
        os.chdir(scratch)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
        sys.stdout = W.Out()
        sys.stderr = W.Out()
        try:
            out = fn()
        except BaseException:
            out = {"error": traceback.format_exc()[-4000:]}
        data = json.dumps(out).encode()
        with os.fdopen(fd, "wb") as f:
            f.write(data)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


class Pool:
    "at most `jobs` forked children at a time; results in order of completion"

    def __init__(self, jobs, root):
        self.jobs = jobs
        self.root = root
        self.live = {}  # fd -> [pid, tag, chunks, t0]

    def start(self, tag, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in self.live:
                try:
                    os.close(fd)
                except OSError:
                    pass
            _child(w, self.root, fn)
        os.close(w)
        self.live[r] = [pid, tag, [], boot.real_perf()]

    def full(self):
        return len(self.live) >= self.jobs

    def wait(self):
        "-> list of (tag, result)"
        done = []
        ready, _, _ = select.select(list(self.live), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                self.live[fd][2].append(data)
                continue
            done.append(self._finish(fd))
        now = boot.real_perf()
        for fd in list(self.live):
            if now - self.live[fd][3] > CASE_TIMEOUT:
                os.kill(self.live[fd][0], signal.SIGKILL)
                tag = self.live[fd][1]
                self._finish(fd)
                done.append((tag, {"hang": True}))
        return done

    def _finish(self, fd):
        pid, tag, chunks, t0 = self.live.pop(fd)
        os.close(fd)
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(os.path.join(self.root, f"c{pid}"), ignore_errors=True)
        try:
            out = json.loads(b"".join(chunks))
        except ValueError:
            out = {"error": f"child ended with status {status} and no result"}
        return tag, out

    def kill(self):
        for fd in list(self.live):
            os.kill(self.live[fd][0], signal.SIGKILL)
            self._finish(fd)


def forked(fn):
    """value of fn(), computed in a forked process of its own, so that nothing
    it does is left behind in this one"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = {"value": fn()}
            except BaseException as e:
                out = {"error": traceback.format_exc()[-3000:]}
                if isinstance(e, TooMuch):
                    out["toomuch"] = True
                if from_library(e):
                    out["library"] = f"{type(e).__name__}: {e}"
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if "toomuch" in out:
        raise TooMuch()
    if "library" in out:
        raise LibraryError(out["library"])
    if "error" in out:
        raise RuntimeError("in forked helper: " + out["error"])
    return out["value"]


def make_case(mod, seed, i, tier):
    rng = gen.rng_for(seed, mod.ID, i)
    case = mod.gen(rng, i, tier)
    # what runs is what a replay file can hold
    return json.loads(json.dumps(case))


def make_case_apart(mod, seed, i, tier):
    # generation may run the library (to place faults): in a process of its own
    if getattr(mod, "GEN_RUNS_CODE", False):
        return forked(lambda: make_case(mod, seed, i, tier))
    return make_case(mod, seed, i, tier)


def gen_and_run(mod, seed, i, tier):
    try:
        case = make_case_apart(mod, seed, i, tier)
    except LibraryError:
        case = {"regenerate": [seed, i, tier]}
    out = execute(mod, case)
    out["case"] = case if (out["violations"] or i < 3) else None
    return out


def same(out, kind):
    return any(v[0] == kind for v in out.get("violations", ()))


# -- minimisation ----------------------------------------------------------------


def shrink_list(lst, least=0):
    n = len(lst)
    step = n
    while step >= 1:
        for s in range(0, n, step):
            new = lst[:s] + lst[s + step :]
            if least <= len(new) < n:
                yield new
        step //= 2


def shrink_faults(fl):
    yield from shrink_list(fl)
    for i, f in enumerate(fl):
        if f[1] > 1:
            for c in (1, f[1] // 2, f[1] - 1):
                if c < f[1]:
                    yield fl[:i] + [[f[0], c] + f[2:]] + fl[i + 1 :]
        if f[2] != "stall":
            yield fl[:i] + [[f[0], f[1], "stall"]] + fl[i + 1 :]


SIMPLE = dict(
    stepcontrol=False, dxtol=1.000001, cycl=4, nfev=8, ftol=8, xtol=8, reduce=8, increase=0.5,
    maxfac=10, minfac=1e-6, j_pre=True,
)


def shrink_spec(spec):
    s = spec["settings"]
    for k in list(s):
        if k in SIMPLE and k not in ("nsteps", "incs", "du", "dlpf"):
            new = dict(s)
            del new[k]
            yield dict(spec, settings=new)
    if "xlimit" in s:
        new = dict(s)
        del new["xlimit"]
        yield dict(spec, settings=new)
    if s.get("j_fixed"):
        new = {k: v for k, v in s.items() if k not in ("j_fixed", "j0")}
        yield dict(spec, settings=new)
    incs = s.get("incs")
    if isinstance(incs, list):
        yield dict(spec, settings=dict(s, incs=max(incs)))
        for i, v in enumerate(incs):
            for c in (1, v // 2, v - 1):
                if 0 < c < v:
                    yield dict(spec, settings=dict(s, incs=incs[:i] + [c] + incs[i + 1 :]))
    elif isinstance(incs, int):
        for c in (1, incs // 2, incs - 1):
            if 0 < c < incs:
                yield dict(spec, settings=dict(s, incs=c))
    n = s.get("nsteps", 1)
    if n > 1:
        for drop in range(n):
            new = dict(s, nsteps=n - 1)
            for k in ("incs", "xlimit"):
                v = new.get(k)
                if isinstance(v, list) and (k == "incs" or (v and isinstance(v[0], list))):
                    new[k] = v[:drop] + v[drop + 1 :]
            forces = [[l, f[: 3 * drop] + f[3 * drop + 3 :]] for l, f in spec["forces"]]
            yield dict(spec, settings=new, forces=forces)
    if spec.get("log"):
        yield dict(spec, log=0)
    for i, e in enumerate(spec["elements"]):
        if e[2] == 2 and len(e[3]) == 3:
            yield dict(
                spec, elements=spec["elements"][:i] + [[e[0], e[1], 1, e[3], e[4]]] + spec["elements"][i + 1 :]
            )
    if len(spec["forces"]) > 1:
        for f in shrink_list(spec["forces"], least=1):
            yield dict(spec, forces=f)
    sorted_nodes = sorted(spec["nodes"])
    if sorted_nodes != spec["nodes"]:
        yield dict(spec, nodes=sorted_nodes)


def shrink_path(case):
    "candidates for cases made of a spec and a fault list"
    if "faults" in case:
        for f in shrink_faults(case["faults"]):
            yield dict(case, faults=f)
    if "spec" in case:
        for s in shrink_spec(case["spec"]):
            yield dict(case, spec=s)


def minimise(mod, case, kind, jobs, root, seconds):
    t0 = boot.real_perf()
    tried = 0
    if "regenerate" in case:
        return case, 0
    shrink = getattr(mod, "shrink", shrink_path)
    best = case
    progress = True
    while progress and boot.real_perf() - t0 < seconds:
        progress = False
        cands = iter(shrink(best))
        seen = set()
        while boot.real_perf() - t0 < seconds:
            batch = []
            for c in cands:
                key = json.dumps(c, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                batch.append(json.loads(key))
                if len(batch) == jobs:
                    break
            if not batch:
                break
            tried += len(batch)
            results = run_cases(mod, batch, jobs, root)
            hit = next((c for c, o in zip(batch, results) if same(o, kind)), None)
            if hit is not None:
                best = hit
                progress = True
                break
    return best, tried


def run_cases(mod, cases, jobs, root):
    pool = Pool(jobs, root)
    out = [None] * len(cases)
    todo = list(enumerate(cases))
    while todo or pool.live:
        while todo and not pool.full():
            i, c = todo.pop(0)
            pool.start(i, lambda c=c: execute(mod, c))
        for i, o in pool.wait():
            out[i] = o
    return out


# -- known findings ----------------------------------------------------------------


def known_findings(pid):
    "lines `finding: property=<id> kind=<kind> match=<text> :: what fails`"
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        with boot.real_open(path) as f:
            for line in f:
                if line.startswith("finding: property=" + pid + " "):
                    head, what = line.strip().split(" :: ", 1)
                    kind = head.split("kind=")[1].split(" ")[0]
                    match = head.split("match=", 1)[1] if "match=" in head else ""
                    out.append((kind, match, what))
    return out


# -- a check -------------------------------------------------------------------------


def hang_case(mod, seed, i, tier, root):
    """a case that did not end: repeat it with every line of the library counted.
    -> result dict (deterministic), or None if it does end then"""
    limit = 3_000_000 if mod.ID == "C06" else 20_000_000

    def fn():
        count = [0]

        def local(frame, event, arg):
            count[0] += 1
            if count[0] > limit:
                raise TooMuch()
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(boot.PKG):
                return local
            return None

        case = make_case(mod, seed, i, tier) if not isinstance(i, dict) else i
        rep = Report()
        sys.settrace(tracer)
        try:
            mod.run(case, rep)
        except TooMuch:
            count[0] = limit + 1
        except Exception:
            if count[0] <= limit:
                raise
        finally:
            sys.settrace(None)
        if count[0] > limit:
            rep.violations.clear()
            rep.bad("unbounded-work", f"no end after {limit} lines of library code")
        out = rep.as_dict()
        out["case"] = case
        return out

    pool = Pool(1, root)
    pool.start(0, fn)
    while pool.live:
        for _, o in pool.wait():
            return o


def check(pid, tier, seed, jobs, n=None, cap=None, verbose=False):
    t0 = boot.real_perf()
    mod = prop_module(pid)
    if n is None:
        n = mod.QUICK if tier == "quick" else mod.THOROUGH
    cap = cap or (240 if tier == "quick" else 3300)
    root = tempfile.mkdtemp(prefix="dst-")
    os.chmod(root, 0o711)
    known = known_findings(pid)
    try:
        return _check(pid, mod, tier, seed, jobs, n, cap, root, known, t0, verbose)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _check(pid, mod, tier, seed, jobs, n, cap, root, known, t0, verbose):
    pool = Pool(jobs, root)
    stats, keys, digests, nontrivial = Counter(), set(), {}, set()
    sim_s = 0.0
    samples, errors, hangs, bad, hit = {}, [], [], [], Counter()
    nxt = done = 0
    stop = False
    while (nxt < n and not stop) or pool.live:
        while nxt < n and not stop and not pool.full():
            if boot.real_perf() - t0 > cap:
                n = nxt
                break
            i = nxt
            pool.start(i, lambda: gen_and_run(mod, seed, i, tier))
            nxt += 1
        if not pool.live:
            continue
        for i, o in pool.wait():
            done += 1
            if "hang" in o:
                hangs.append(i)
                stop = True
                continue
            if "error" in o:
                errors.append((i, o["error"]))
                if len(errors) > 3:
                    stop = True
                continue
            stats.update(o["stats"])
            keys.update(o["keys"])
            digests[i] = o["digest"]
            sim_s += o["sim_s"]
            if o["nontrivial"]:
                nontrivial.add(o["digest"])
            if o["case"] is not None and i < 3:
                samples[i] = o["case"]
            fresh = []
            for kind, detail in o["violations"]:
                for k, match, what in known:
                    if k == kind and match in detail:
                        hit[what] += 1
                        break
                else:
                    fresh.append([kind, detail])
            if fresh:
                bad.append((i, fresh, o["case"]))
                stop = True
    t_explore = boot.real_perf() - t0

    for what in sorted({w for _, _, w in known}):
        print(f"KNOWN-FINDING: property={pid} {what}")

    violation = None
    if bad:
        i, viol, case = min(bad, key=lambda x: x[0])
        violation = confirm(pid, mod, tier, seed, i, viol, case, jobs, root)
    elif hangs:
        o = hang_case(mod, seed, min(hangs), tier, root)
        if o and o.get("violations"):
            violation = save(pid, seed, tier, min(hangs), o["violations"][0], o["case"], o["digest"], True)

    wall = boot.real_perf() - t0
    rate = done / max(t_explore, 1e-9) * 3600
    faults = {k: v for k, v in sorted(stats.items()) if k.startswith(("fault", "crash", "shuffle", "preempt"))}
    probes = {k: v for k, v in sorted(stats.items()) if k not in faults}
    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE,
            samples=[samples[k] for k in sorted(samples)][:2] or ["none"],
            runs_per_hour=round(rate),
            seeds=dict(verif_seed=seed, cases=[0, nxt], per_hour=round(rate)),
            simulated_seconds=round(sim_s, 3),
            faults_fired=faults,
            probes=probes,
            distinct_states=len(keys),
            distinct_states_measure=mod.STATES,
            distinct_event_logs=len(set(digests.values())),
            components=mod.COMPONENTS,
            harness_errors=len(errors),
            hangs=len(hangs),
            exhaustive=False,
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=1 if violation else 0,
    )
    dest = os.environ.get("DST_EVIDENCE", os.path.join(HERE, "evidence"))
    if not os.environ.get("DST_NO_EVIDENCE"):
        os.makedirs(dest, exist_ok=True)
        with boot.real_open(os.path.join(dest, pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    print(
        f"{pid} {tier}: {done} runs, {len(nontrivial)} distinct with faults/schedules, "
        f"{len(keys)} states, {stats.get('solves', 0)} solves, {wall:.1f} s"
    )
    if verbose:
        print(json.dumps(faults), json.dumps(probes))
    if violation:
        path, kind, detail, ok = violation
        print(f"  {kind}: {detail}")
        if ok:
            print(f"VIOLATION property={pid} replay={path}")
            return 1, digests
        print(f"ERROR: the violation does not repeat, see {path}")
        return 2, digests
    if errors:
        for i, e in errors[:2]:
            print(f"HARNESS ERROR in case {i}:\n{e}")
        return 2, digests
    if hangs:
        print(f"ERROR: cases {hangs} did not end")
        return 2, digests
    missing = [p for p in getattr(mod, "PROBES", ()) if not stats.get(p)]
    if missing and done >= 200:
        print("NOTE: probes never hit:", missing)
    return 0, digests


def save(pid, seed, tier, index, viol, case, digest, ok, original=None, tried=0):
    folder = os.environ.get("DST_REPLAYS", os.path.join(HERE, "replays"))
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{seed}-{index}.json")
    with boot.real_open(path, "w") as f:
        json.dump(
            dict(
                property=pid, seed=seed, tier=tier, index=index, kind=viol[0], detail=viol[1],
                digest=digest, candidates_tried=tried, case=case, original_case=original,
            ),
            f,
            indent=1,
        )
    return path, viol[0], viol[1], ok


def confirm(pid, mod, tier, seed, i, viol, case, jobs, root):
    kind = viol[0][0]
    seconds = 30 if tier == "quick" else 240
    small, tried = minimise(mod, case, kind, jobs, root, seconds)
    for cand in (small, case):
        out = run_cases(mod, [cand], 1, root)[0]
        v = next((v for v in out.get("violations", ()) if v[0] == kind), None)
        if v is None:
            continue
        res = save(pid, seed, tier, i, v, cand, out["digest"], True, case, tried)
        for _ in range(3):
            p = subprocess.run(
                [os.path.join(HERE, "replay"), res[0], "--quiet"],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
            )
            if p.returncode == 1:
                return res
    return save(pid, seed, tier, i, viol[0], case, "", False, None, tried)


def replay(path, quiet=False):
    with boot.real_open(path) as f:
        d = json.load(f)
    mod = prop_module(d["property"])
    root = tempfile.mkdtemp(prefix="dst-")
    os.chmod(root, 0o711)
    try:
        if d["kind"] == "unbounded-work" and "lines of library" in d["detail"]:
            out = hang_case(mod, 0, d["case"], "quick", root)
        else:
            out = run_cases(mod, [d["case"]], 1, root)[0]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if "error" in out:
        print("HARNESS ERROR:\n" + out["error"])
        return 2
    v = next((v for v in out.get("violations", ()) if v[0] == d["kind"]), None)
    if v is None:
        print("the recorded violation does not occur on this tree; found:", out.get("violations"))
        return 0
    exact = out["digest"] == d["digest"] and v[1] == d["detail"]
    if not quiet:
        print(json.dumps(d["case"], indent=1))
    print(f"{v[0]}: {v[1]}\nevent log digest {out['digest']} ({'identical' if exact else 'differs from the recording'})")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1
