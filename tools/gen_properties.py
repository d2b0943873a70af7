"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))
S = "src/trusspy/"
MODEL, TPS, ZS, EL, MAT, AN, RES = (S + x for x in ("model.py", "solvers/tpsolver.py", "solvers/zerosearch.py",
    "elements/element_definition.py", "materials/material_definition.py", "core/analysis.py", "handlers/handler_result.py"))
HN, HE, HB, HF, HS = (S + "handlers/handler_%s.py" % x for x in ("node", "element", "boundary", "extforce", "settings"))
NOASSERT = "The eight tests contain no assertion at all and follow one undisturbed path each; "

add("C01", "Every recorded increment is in static equilibrium",
 "Whatever failed, rejected or retried solution attempts occurred on the way, every load increment that an analysis records satisfies force balance on every free degree of freedom within the requested force tolerance: the internal forces that follow from the recorded displacements and material history equal the loads held from completed steps plus the load factor times the loads of the current step. Supported degrees of freedom have exactly zero displacement in every recorded increment.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of failed / inaccurate / stalled linear solves during a path-following run, over generated trusses, materials, step plans and settings",
 NOASSERT + "a wrong force balance, or acceptance of a non-converged attempt, passes them, and they never meet a failing solve at a chosen attempt.",
 [MODEL, TPS, ZS, EL],
 [("residual check before acceptance", TPS + " pathfollow, " + ZS + " newton"), ("assembly of internal forces", MODEL + " Model.equilibrium, " + EL + " truss")],
 [("R[i].U, R[i].lpf", "recorded displacements and load factor", RES)], ["Model.Results.R"])

add("C02", "Discarded attempts leave no trace in the material history",
 "For elastic-plastic elements the stress, yield stress and plastic strain recorded for an increment are exactly what the isotropic-hardening law gives when it is applied once per recorded increment, in order, from virgin material at the recorded displacements. Newton iterations, recycled increments and failed attempts contribute nothing to that history, and elements with elastic material carry no inelastic history at all.",
 ["fault_sequences", "histories"],
 "all placements of failed, recycled or disturbed solution attempts between (and inside) accepted increments, over loading / unloading / reversed loading histories and mixed materials",
 NOASSERT + "they run two plastic models without any failed attempt in the plastic range, so a history update that leaks from a discarded attempt cannot show.",
 [MODEL, TPS, MAT, EL],
 [("state is written only on acceptance", TPS + " pathfollow (state write flag), " + MODEL + " Model.equilibrium"), ("return mapping", MAT)],
 [("R[i].state_v", "yield stress and plastic strain per element", AN)], ["Model.Results.R[i].state_v, element_stress"])

add("C03", "Each load step continues exactly where the previous step ended",
 "In a multi-step analysis every step starts from the displacements and material state of the last increment recorded before it, also if the earlier step stopped early at its limit or because the solver gave up; the loads of all earlier steps stay applied at the load factor each of them reached, and the load factor restarts from zero. Each step uses its own load pattern and, where given per step, its own increment count and its own limit.",
 ["histories", "fault_sequences", "inputs"],
 "all step plans (1..5 steps, scalar or per-step counts and limits) and all fault placements, including failure of a whole step and faults in the first or last attempt of a step",
 NOASSERT + "two of them run four equal steps; none has steps that end early, differ in plan, or fail.",
 [MODEL, TPS, RES],
 [("constant part of the loads and LPF reset", MODEL + " Model.run")],
 [("Results.step_lpf_end", "load factor reached per step", RES)], ["Model.Results.R", "Model.Results.step_lpf_end"])

add("C04", "The result history is an ordered list of self-consistent snapshots",
 "After a run the result list holds the undeformed state followed by exactly one entry per accepted increment, in solution order. All quantities inside one entry (displacements and element stress at the start and at the end of the increment, load factor, step number, applied loads, stretch, element force, internal nodal force, also in reduced form, tangent stiffness) describe that same increment. An entry never changes afterwards, whatever later increments, steps, failed attempts, plots, rebuilds or runs do.",
 ["histories", "fault_sequences"],
 "all runs with failed and recycled attempts between the entries, multi-step plans, later reads, plots, rebuilds and runs of the same model",
 NOASSERT + "stale or aliased entries look like any other numbers to them.",
 [MODEL, RES, TPS, EL, AN],
 [("deep copies per increment", TPS + " pathfollow, " + RES + " copy_increment/add_increment")],
 [("Results.R", "list of recorded increments", RES)], ["Model.Results.R"])

add("C05", "Increment size obeys its limits and the adaptive step rule",
 "No accepted increment moves any free displacement by more than the displacement limit or the load factor by more than its limit, apart from the configured overshoot factor, and at least one of them reaches its limit (with a locked control component, that component alone is measured). With adaptive control both limits are scaled by one common factor that stays between the configured minimum and maximum, is divided by the reduction factor when an attempt fails to converge, never grows by more than the configured increase, and does not grow in the three increments that follow a reduction; without adaptive control the factor is always one.",
 ["fault_sequences", "histories", "configurations"],
 "all sequences of converged, failed and recycled attempts and all step-control settings",
 NOASSERT + "step sizes are not looked at and no failed attempt ever triggers the reduction rule on purpose.",
 [TPS, HS, MODEL],
 [("control equation and acceptance test", TPS + " pathfollow"), ("adaptive rule", TPS + " dxmax_control")],
 [("R[i].dVmax", "limits in force for the increment", TPS)], ["Model.Results.R"])

add("C06", "Every run ends within bounded work and for a legitimate reason",
 "A step ends after its maximum number of increments, at the first recorded increment whose monitored component exceeds its limit, or when the solver gives up after the allowed number of attempts per increment: never earlier, never later, and after a bounded number of linear solves. When it gives up this is reported on the output, all converged increments are kept and the failed attempt is not recorded as a result. With adaptive control a solution attempt that fails (no convergence, or non-finite values) is retried with smaller steps instead of ending the run, so that the run of a well-posed truss completes all its increments, also after disturbances, once they have stopped.",
 ["fault_sequences", "configurations", "inputs"],
 "all finite sequences of solver faults (stalls, kicks, non-finite solutions) against every increment/limit/recycle configuration; liveness on well-posed trusses within a fixed budget of linear solves",
 NOASSERT + "the give-up path is never checked and there is no way in them to make a chosen attempt fail.",
 [TPS, ZS, MODEL],
 [("increment loop, recycle loop, stop rules", TPS + " pathfollow")],
 [], ["Model.Results.R", "standard output"])

add("C07", "The Newton root finder's verdict can be trusted",
 "For any residual and derivative callbacks and any misbehaviour of the linear solver, the root finder reports success exactly when the residual norm at the point it returns and the norm of its last correction are both below their tolerances, stops at the first iterate for which that holds, and otherwise uses exactly the allowed number of iterations. The returned norms and iteration count belong to the returned point, and an exception raised by a callback or by the linear solver reaches the caller. The caller's starting vector is left as it was.",
 ["fault_sequences", "inputs"],
 "all sequences of disturbed callbacks and linear solves (stalled, scaled, negated, kicked, non-finite, raising), all tolerances and iteration limits >= 1",
 NOASSERT + "no test calls the root finder with a misbehaving callback, and a solver that claims convergence early still lets every test pass.",
 [ZS], [("convergence test and loop", ZS + " newton")], [], ["trusspy.solvers.newton return value"])

add("C08", "An analysis depends on nothing but its definition",
 "Running the same model definition gives bit-identical results whatever the log level, log file, clocks, hash seed, directory listing order, working directory, earlier use of the process, or reads and plots made before and between; this holds equally when the same solver disturbances recur. Building and running never alters the caller's nodes, elements, supports, forces or analysis settings, nor the objects and lists they were made from.",
 ["schedules", "configurations", "histories"],
 "all environments the simulator controls: clock behaviour, verbosity, log redirection, hash seed, history of the process, interposed reads and plots; with and without a recurring fault plan",
 NOASSERT + "each runs once in one environment and compares nothing.",
 [MODEL, TPS, RES, HN, HE, HB, HF], [("no hidden inputs in the solver; deep copies of loads and results", MODEL + " Model.build/run")], [], ["Model.Results.R"])

add("C09", "Models that run side by side do not influence each other",
 "Several models in one process, defined, built and run from different threads or in any interleaving of their calls, give bit for bit the results each gives alone, also if they share label numbers, file-less logging, or the same node, element, support and force objects. A failure, interruption or solver disturbance in one model changes nothing in the others.",
 ["schedules", "fault_sequences"],
 "all interleavings of 2..4 models, at API-call granularity and by preemption at any line of the library, with solver faults and crashes confined to one of them",
 NOASSERT + "no test has two models alive in different states at once, let alone two threads.",
 [MODEL, TPS, ZS, EL, AN, HE, HN, HB, HF, HS], [("all state hangs on the model instance", MODEL)], [], ["Model.Results.R of every model"])

add("C10", "Rebuilding always starts clean, after edits, aborts and crashes",
 "After any history of edits, builds, completed runs, failed runs and runs that were interrupted or crashed at any point, building and running a model gives exactly the results that a freshly written model with the current definitions and settings gives. Result objects obtained from an earlier build stay as they were.",
 ["crash_points", "histories", "fault_sequences"],
 "all histories of definition edits, builds, runs and exceptions (interrupt, out of memory, broken output stream) delivered at any solver call, clock read or output write",
 NOASSERT + "one of them rebuilds once after a clean run; none rebuilds after an edit of loads or supports, or after an aborted run.",
 [MODEL, AN, RES, HB, HF, HE, HN], [("build creates new analysis and results objects and fills in default supports and loads", MODEL + " Model.build, " + HB + ", " + HF)], [], ["Model.Results.R"])

add("C11", "A definition call takes effect completely or not at all",
 "A call that adds or deletes a node, element, support or force and fails (unusable data, out of memory) leaves the model definition as it was, so that repeating it correctly gives the same model as if the failure had not happened. The model described by a set of successful calls does not depend on the order in which independent calls arrive or on how labels are numbered, every item keeps the values given for its own label exactly (whether given as a list, tuple or array, which the call leaves as they were and which the caller may then change), and deleting an item removes all its data and nothing else.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of the definition calls of several callers, with invalid calls and allocation failures at any call, deletions and reassignments",
 NOASSERT + "all of them define items in label order, once, without errors or deletions.",
 [HN, HE, HB, HF, MODEL, S + "core/node.py", S + "core/element.py"], [("parallel arrays kept in step", HN + ", " + HE + ", " + HB + ", " + HF), ("sorting at build", MODEL + " Model.build")],
 [], ["Model.Nodes/Elements/Boundaries/ExtForces", "Model.Results.R"])

add("C12", "Log files are complete and standard output is always given back",
 "With a log file requested, everything the model prints from its creation to the end of the run goes to that file and nothing of it to standard output, and the text equals what the same model prints without a log file. As soon as the run returns or fails with an error, standard output is the stream that was in place before the model was created and the log on disk is complete up to that point; if the log cannot be written or opened, the caller gets an error, never a silently truncated log.",
 ["fault_sequences", "crash_points", "schedules"],
 "all failures (solver error, interrupt, write error, disk full at any byte, failing open) at any point of a logged run, and nested or sequential use of several logged models",
 NOASSERT + "they switch logging on but never read the log, and no run in them fails.",
 [MODEL], [("redirection of standard output", MODEL + " Model.__init__/run")], [("sys.stdout", "process-wide output stream", MODEL)], ["sys.stdout", "the log file"])

add("C13", "A movie shows exactly the requested increments, in order",
 "Making a movie leaves one picture per requested increment and a GIF whose frames are those pictures in increment order, whatever the number of increments, the order in which the file system lists files, or what an earlier, possibly interrupted, movie left behind. If a picture or the GIF cannot be written or read, the caller gets an error instead of an incomplete movie, and making the movie again then succeeds; nothing outside the figures folder is touched.",
 ["fault_sequences", "crash_points", "inputs"],
 "all requested increment sets, listing orders, left-overs, and I/O failures or crashes at any file operation",
 NOASSERT + "two movies are made and never looked at; no I/O error, re-run or listing order is ever varied.",
 [S + "tools/plot_utilities.py", S + "tools/movie_generator.py"], [("folder recreation and file naming", S + "tools/plot_utilities.py p_movie"), ("frame collection", S + "tools/movie_generator.py png_to_gif")], [], ["figures/png", "figures/gif/movie.gif"])

add("C14", "Reported durations are the true wall and CPU time of each phase",
 "The run report states, for building and for running, the CPU time and the wall time that really passed in that phase: the CPU figures follow the CPU clock, the wall figures follow a monotonic clock, for slow phases, stalled processes, repeated builds and runs, and jumps of the system time alike.",
 ["schedules", "configurations"],
 "all behaviours of the clocks: arbitrary origins, CPU and wall time advancing at unrelated rates, stalls, system time jumps, idle time between build and run, repeated builds and runs",
 NOASSERT + "the report is never read and real clocks cannot be steered.",
 [MODEL], [("clock readings around build and run", MODEL + " Model.build/run")], [], ["standard output of a run (log level 2)"])

add("C15", "The printed protocol tells what the run did",
 "For every recorded increment, in order and under its step and number, the protocol of a run states the load factor that was recorded; for every solution attempt, also failed and repeated ones, its iterations, one for each linear solve, how many it used, the control component it used and the residual it ended with, as detailed as the chosen log level. A limit that ended a step and a solver that gave up are stated in the step where that happened, at every log level, and nothing is stated that did not happen.",
 ["fault_sequences", "histories", "configurations"],
 "all sequences of accepted, failed and repeated solution attempts with failing or inaccurate linear solves, over generated models, step plans, limits, settings and log levels",
 NOASSERT + "the protocol is printed and never read; failed attempts, whose lines may be lost or attributed to another increment, hardly occur.",
 [TPS, MODEL], [("protocol of increments, attempts and ends of steps", TPS + " pathfollow, " + MODEL + " Model.run")],
 [("Results.R[i].lpf", "recorded load factor", RES)], ["standard output or log file of a run"])

add("C16", "Plots show what was recorded, each on its own figure",
 "A plot of a model shows every node, element, load and contour value of the requested increment as it was recorded, for any node and element labels; a plot of a history or of a path shows the recorded values of the asked nodes and increments, each increment at its own number. A plot uses a new figure or, if one is given, only that one: figures of earlier plots, also of other models, stay open and as they are (also when a movie is made), the results stay as they are, and all this holds after runs that ended early, reruns and interrupted plots.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of runs (with failing solves), rebuilds and plots of one or several models in new and given figures, interrupted at any point, over label sets, views, quantities and increments",
 NOASSERT + "plots are drawn but never inspected, and each model is plotted right after one undisturbed run.",
 [S + "tools/plot_utilities.py", S + "tools/helper_functions2.py", MODEL], [("selection of plotted data", S + "tools/plot_utilities.py"), ("drawing into figures", S + "tools/helper_functions2.py")],
 [("pyplot current figure", "process-wide figure that 2D plots draw into", S + "tools/helper_functions2.py")], ["matplotlib figures and axes returned by plot_model, plot_history, plot_path"])

add("N01", "The tangent stiffness is the derivative of the internal forces",
 "For every deformed state the tangent stiffness matrix equals the derivative of the internal nodal forces with respect to the nodal displacements and is symmetric.",
 ["inputs"], "all geometries, states and materials", NOASSERT + "a wrong tangent only slows convergence.",
 [EL, MODEL], [("element stiffness", EL + " truss")], [], ["Model.stiffness"])
add("N02", "The stress-strain laws are consistent",
 "The elastic law is linear; the elastic-plastic law never exceeds the yield stress, unloads elastically, and returns the consistent tangent, for every strain and state.",
 ["inputs"], "all strains, states and parameters", NOASSERT + "no value of the laws is checked.",
 [MAT], [("return mapping", MAT)], [], ["trusspy.materials functions"])
add("N03", "Mechanics is frame indifferent and scales with units",
 "Rotating, translating or rescaling a truss with its loads rotates, translates or rescales its internal forces and response accordingly.",
 ["inputs"], "all rigid motions and unit systems", NOASSERT + "each truss is computed in one frame only.",
 [EL, MODEL], [("kinematics", EL + " truss")], [], ["Model.equilibrium"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
