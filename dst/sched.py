"""Threads under a baton: real threads of which exactly one runs at a time, and
a plan decides which one and for how long.

The plan is a list of slices [thread, units]; a unit is a line (or a bytecode
instruction) of library code, or a linear solve.  When the plan is used up the
threads go on in turn with `rest` units each."""
import hashlib
import sys
import threading

from . import boot


class Stuck(Exception):
    pass


class Baton:
    def __init__(self, bodies, plan, unit="line", rest=200):
        self.bodies = bodies
        self.plan = [list(p) for p in plan]
        self.unit = unit
        self.rest = rest
        self.n = len(bodies)
        self.gates = [threading.Semaphore(0) for _ in bodies]
        self.finished = [False] * self.n
        self.errors = [None] * self.n
        self.left = 0
        self.at = 0
        self.turn = -1
        self.switches = 0
        self.inside = 0  # switches in the middle of library code
        self.log = hashlib.sha256()
        self.done = threading.Event()

    # -- scheduling: only the thread that holds the baton gets here ------------
    def next(self):
        "-> index of the thread to run next, or None if all are finished"
        while self.at < len(self.plan):
            tid, units = self.plan[self.at]
            self.at += 1
            tid %= self.n
            if not self.finished[tid] and units > 0:
                self.left = units
                return tid
        for d in range(1, self.n + 1):
            tid = (self.turn + d) % self.n
            if not self.finished[tid]:
                self.left = self.rest
                return tid
        return None

    def tick(self, tid, where):
        self.left -= 1
        if self.left > 0:
            return
        new = self.next()
        if new == tid:
            return
        self.switches += 1
        self.inside += 1
        self.log.update(f"{tid}>{new}@{where};".encode())
        self.turn = new
        self.gates[new].release()
        self.gates[tid].acquire()

    def body(self, tid):
        self.gates[tid].acquire()
        try:
            if self.unit in ("line", "opcode"):
                sys.settrace(self.tracer(tid))
            try:
                self.bodies[tid](self, tid)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors[tid] = e
        self.finished[tid] = True
        new = self.next()
        if new is None:
            self.done.set()
            return
        self.switches += 1
        self.log.update(f"{tid}>{new}@end;".encode())
        self.turn = new
        self.gates[new].release()

    def tracer(self, tid):
        ops = self.unit == "opcode"
        pkg = len(boot.PKG)

        def local(frame, event, arg):
            if event == ("opcode" if ops else "line"):
                code = frame.f_code
                self.tick(tid, f"{code.co_filename[pkg:]}:{code.co_name}")
            return local

        def top(frame, event, arg):
            if not frame.f_code.co_filename.startswith(boot.PKG):
                return None
            if ops:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return top

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        first = self.next()
        self.turn = first
        self.gates[first].release()
        if not self.done.wait(140):
            raise Stuck("threads did not finish")
        for t in threads:
            t.join(10)
        for e in self.errors:
            if e is not None:
                raise e


class LineCrash:
    "raise an exception at the n-th line of library code executed in the block"

    def __init__(self, n, exc, world=None):
        self.n, self.exc, self.world = n, exc, world
        self.count = 0
        self.fired = False

    def local(self, frame, event, arg):
        if event == "line":
            k = self.count
            self.count += 1
            if k == self.n and not self.fired:
                self.fired = True
                code = frame.f_code
                if self.world is not None:
                    self.world.stats["crash.line"] += 1
                    self.world.ev("crash", "line", k, code.co_name)
                raise self.exc
        return self.local

    def top(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(boot.PKG):
            return self.local
        return None

    def __enter__(self):
        sys.settrace(self.top)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
