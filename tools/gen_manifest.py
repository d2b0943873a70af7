"MANIFEST.json from properties.jsonl"
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": T + "seeded solver faults (stalls, wrong/non-finite solutions) over generated analyses, invariant re-evaluated on every recorded increment by an independent mechanics model",
    "C02": T + "seeded solver faults that force discarded attempts; history variables compared with a replay of the recorded path only",
    "C03": T + "seeded solver faults over load-step plans; step boundaries compared with a reference of the chained state",
    "C04": T + "seeded solver faults, self-consistency and aliasing of the recorded history, later work on the same process",
    "C05": T + "seeded solver faults drive accept/reject; recorded step sizes checked against a reference automaton of the step control",
    "C06": T + "adversarial solver, bounded-work budget in simulated solves, progress after faults stop, reason of every end classified",
    "C07": T + "simulated functions/solver under the real Newton iteration: verdict checked against the true residual and iteration bound",
    "C08": T + "repetitions of one definition under permuted environment (hash seed, clocks, directory, threads, faults elsewhere, order of calls), bit-exact comparison",
    "C09": T + "two or more models interleaved at line/instruction/solve granularity by a seeded scheduler; history refinement against solo runs",
    "C10": T + "edits, aborts and crashes (exceptions at any allocation, solve or line) before a rebuild; refinement against a fresh process-independent model",
    "C11": T + "failing allocations and line-level crashes in definition calls; operation sequences checked against an executable reference model (atomicity)",
    "C12": T + "log file and standard output under I/O faults, short writes, full disk, crashes and interleaved models; refinement against the solo transcript",
    "C13": T + "file system faults, permuted listings, torn writes, process death; the resulting movie is decoded and compared with the requested increments",
    "C14": T + "virtual CPU/wall/system clocks with unrelated rates, stalls, jumps and idle time; reported figures compared with the simulated truth",
    "C16": T + "interleaved runs (seeded solver faults), rebuilds and plots of several models, interrupted at seeded lines and allocations; the drawn artists are read back and compared with the recorded history",
    "C15": T + "seeded solver faults force failed and repeated attempts; the printed protocol, with a mark at every simulated solve, is parsed and compared with the recorded history",
}
LEVEL = {p: "exploration" for p in TECH}
NOTE = {
    "C01": "seeded search over generated models and fault plans; nothing is enumerated exhaustively. Tolerance: residual bound implied by ftol/xtol.",
    "C08": "bit-exact within one build of numpy/scipy; other library versions are out of reach offline.",
    "C09": "thread switches at line, byte code and solver boundaries inside the library; numpy calls are atomic.",
    "C13": "most runs use a stand-in for Figure.savefig that encodes what is drawn; some use the real one.",
}
NA = {
    "N01": "pure function: the tangent of one element or structure depends on no schedule, clock, I/O or fault, so deterministic simulation has nothing to decide",
    "N02": "pure function: the stress-strain laws map their arguments to values without any nondeterminism a simulator could control",
    "N03": "pure function: frame indifference and scaling relate results of undisturbed single-threaded calculations; no schedule, time, I/O or fault takes part",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check {i}",
                thorough_cmd=f"./check {i} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH[i],
                level=LEVEL[i],
                level_note=NOTE.get(i, "seeded search over generated cases, schedules and fault plans; nothing is enumerated exhaustively"),
            )
        )
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(
    dict(
        version=1,
        setup_cmd="./run setup",
        checks=checks,
        not_applicable=na,
        notes="The simulator is pure Python (dst/); it imports the working tree of /repo, which needs no hooks. "
        "./replay FILE repeats a reported violation. ./run determinism repeats cases with other worker counts and hash seeds.",
    ),
    open(os.path.join(here, "MANIFEST.json"), "w"),
    indent=1,
)
