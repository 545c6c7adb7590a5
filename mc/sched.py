"""
Controlled scheduler of real threads: exactly one thread runs at a time, and it may
be preempted only at trace events (lines or bytecodes) of the library's own files.
A plan is a list of (thread, number of events); the last entries run to the end.
"""
import os
import sys
import threading
import time
from mc import core

PKG = os.path.join(os.path.realpath(core.REPO), "padasip") + os.sep
STUCK_S = 3.


class Run:
    def __init__(self, fns, plan, opcodes=False):
        self.fns, self.opcodes = fns, opcodes
        self.plan = list(plan)
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.out = [None] * n
        self.err = [None] * n
        self.count = [0] * n        # events seen by each thread
        self.free = False           # control given up: a lock of the library blocks the chosen thread
        self.left = None
        self.finished = threading.Semaphore(0)
        self.progress = 0
        self.switches = 0

    # ------------------------------------------------------------- hand over
    def pick(self):
        """next entry of the plan, or any thread that has not finished"""
        while self.plan:
            who, k = self.plan.pop(0)
            if not self.done[who]:
                self.left = k
                return who
        for who, d in enumerate(self.done):
            if not d:
                self.left = None
                return who
        return None

    def event(self, me):
        self.count[me] += 1
        self.progress += 1
        if self.free or self.left is None:
            return
        while self.left is not None and self.left <= 0:
            nxt = self.pick()
            if nxt is None or nxt == me:
                continue
            self.switches += 1
            self.sem[nxt].release()
            self.sem[me].acquire()
        if self.left is not None:
            self.left -= 1

    def body(self, me):
        run, opcodes, real = self, self.opcodes, os.path.realpath
        self.sem[me].acquire()
        wanted = "opcode" if opcodes else "line"
        known = {}

        def local(frame, kind, arg):
            if kind == wanted:
                run.event(me)
            return local

        def glob(frame, kind, arg):
            name = frame.f_code.co_filename
            ours = known.get(name)
            if ours is None:
                ours = known[name] = real(name).startswith(PKG)
            if not ours:
                return None
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        try:
            sys.settrace(glob)
            self.out[me] = self.fns[me]()
        except BaseException as ex:
            self.err[me] = ex
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.progress += 1
            nxt = self.pick()
            if nxt is not None:
                self.sem[nxt].release()
            self.finished.release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        first = self.pick()
        self.sem[first].release()
        for _ in ts:
            while not self.finished.acquire(timeout=STUCK_S):
                if self.free:
                    self.gave_up = getattr(self, "gave_up", 0) + 1
                    if self.gave_up > 20:
                        raise core.Violation("threads never finish")
                before = self.progress
                time.sleep(.05)
                if self.progress == before and not self.free:
                    self.free = True
                    self.left = None
                    for s in self.sem:
                        s.release()
                        s.release()
        for t in ts:
            t.join()
        for e in self.err:
            if e is not None:
                raise e
        return self.out


def lengths(fns_factory, opcodes):
    """number of events of each thread when they run one after the other"""
    r = Run(fns_factory(), [], opcodes)
    r.go()
    return r.count


def plans(counts, bound, stride=1):
    """every plan of two threads with at most `bound` preemptions"""
    la, lb = counts
    for first, (l0, l1) in ((0, (la, lb)), (1, (lb, la))):
        other = 1 - first
        yield [(first, None)]
        for i in range(0, l0 + 1, stride) if bound >= 1 else ():
            if i:       # i = 0 is the other thread first
                yield [(first, i), (other, None)]
            if bound >= 2 and i:
                for j in range(1, l1 + 1, stride):
                    yield [(first, i), (other, j), (first, None)]
            if bound >= 3 and i:
                for j in range(1, l1 + 1, stride):
                    for k in range(1, l0 - i + 1, stride):
                        yield [(first, i), (other, j), (first, k), (other, None)]
